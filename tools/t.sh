#!/bin/bash
# t.sh <module> [config] : run TLC on spec/ in a scratch directory
d=$(mktemp -d /tmp/tlc.XXXX); cp "$(dirname "$0")"/../spec/* $d; cd $d
java -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 6 -config ${2:-$1}.cfg $1 > out 2>&1
grep -E "distinct|rror|iolat|Finish" out | tail -8; rm -rf $d
