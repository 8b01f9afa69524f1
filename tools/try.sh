#!/bin/bash
# tools/try.sh <focus> <seed> <cap> : quick random exploration, prints a summary of complaints
d=/verif/work/try-$1; mkdir -p $d; cp /verif/spec/*.tla /verif/spec/*.cfg $d; cd $d
/verif/target/debug/mbt random out=$d focus=$1 seed=$2 cap=$3 len=60
export MBT_STATES=$d/states.ndjson MBT_STEPS=$d/steps.ndjson
tlc -workers 8 -metadir $d/md -config Judge.cfg Judge.tla > judge.out 2>&1
cat summary.json; echo; grep -v '@@V' judge.out | grep -iE "error|exception|finished" | head
grep -o '^"@@V.*' judge.out | sed 's/ step [0-9]*/ step/; s/ state [0-9]*/ state/' | sort | uniq -c | sort -rn | head -${4:-20}
