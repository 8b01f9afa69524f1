---------------------------- MODULE QueueStore ----------------------------
(***************************************************************************)
(* The queue storage (api/src/state/queue.rs), twice.                      *)
(*                                                                         *)
(* Abstract: an ordered list of requests  [id, load, len, off]  in an      *)
(* account of Size bytes; insertion behind the last one.                   *)
(* Concrete: the in-place layout the code uses, i.e. records laid out one  *)
(* after the other, removal by tombstone, a cursor behind the last record  *)
(* that is pulled back over trailing tombstones.                           *)
(*                                                                         *)
(* MCQueue checks that the concrete machine refines the abstract list;     *)
(* QueueJudge validates recorded operations of the real code against the   *)
(* abstract list.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FirstItem == 16
ItemHead  == 96
MetaLen   == 33
MaxMetas  == 20
MaxArgs   == 512
Align8(n) == ((n + 7) \div 8) * 8
Remove(seq, i) == [j \in 1..(Len(seq) - 1) |-> IF j < i THEN seq[j] ELSE seq[j + 1]]
Filter(seq, Keep(_)) ==
  LET F[i \in 0..Len(seq)] ==
        IF i = 0 THEN <<>> ELSE IF Keep(seq[i]) THEN Append(F[i - 1], seq[i]) ELSE F[i - 1]
  IN  F[Len(seq)]

\* ------------------------------------------------------------ abstract list
\* an item has at least the fields id, off and len (total length incl. payload)
End(it)       == it.off + it.len
TailOf(items) == IF items = <<>> THEN FirstItem ELSE Align8(End(items[Len(items)]))
Fits(items, len, size) == TailOf(items) + len <= size
FindId(items, id) ==      \* 0-based logical index of the first item with that id, or -1
  IF \E i \in DOMAIN items : items[i].id = id
  THEN (CHOOSE i \in DOMAIN items : items[i].id = id /\ \A j \in 1..(i - 1) : items[j].id # id) - 1
  ELSE -1

\* ------------------------------------------------------------ concrete layout
\* C = [recs, cur]: all records (used or not) in address order, and the cursor
Used(C) == LET u(r) == r.used IN Filter(C.recs, u)
LastUsedEnd(C) ==
  LET F[i \in 0..Len(C.recs)] == IF i = 0 THEN FirstItem
        ELSE IF C.recs[i].used THEN Align8(C.recs[i].off + C.recs[i].len) ELSE F[i - 1]
  IN F[Len(C.recs)]
Trim(C) ==
  LET e == LastUsedEnd(C)
      inside(r) == r.off < e
  IN  IF e < C.cur THEN [recs |-> Filter(C.recs, inside), cur |-> e] ELSE C
CAdd(C, id, len, size) ==       \* result [ok, C]
  LET T == Trim(C)
      a == Align8(T.cur)
  IN  IF a + len > size THEN [ok |-> FALSE, C |-> T]
      ELSE [ok |-> TRUE, C |-> [recs |-> Append(T.recs, [id |-> id, off |-> a, len |-> len, used |-> TRUE]),
                                cur |-> a + len]]
NthUsed(C, n) ==      \* 0 if there is none
  LET F[i \in 0..Len(C.recs)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF C.recs[i].used THEN 1 ELSE 0)
  IN  IF \E i \in DOMAIN C.recs : C.recs[i].used /\ F[i] = n + 1
      THEN CHOOSE i \in DOMAIN C.recs : C.recs[i].used /\ F[i] = n + 1 ELSE 0
CRemove(C, n) ==
  LET i == NthUsed(C, n) IN
  IF i = 0 THEN [ok |-> FALSE, C |-> C]
  ELSE LET D == [C EXCEPT !.recs[i].used = FALSE]
           tail == Align8(C.recs[i].off + C.recs[i].len) = C.cur
       IN  [ok |-> TRUE, C |-> IF tail THEN Trim(D) ELSE D]
Abs(C) == [i \in 1..Len(Used(C)) |-> [id |-> Used(C)[i].id, off |-> Used(C)[i].off, len |-> Used(C)[i].len]]
=============================================================================
