------------------------------ MODULE MCQueue ------------------------------
(* The concrete layout refines the abstract list, for all operation        *)
(* sequences up to a length; every distinct state's path is exported for   *)
(* replay on the real code.                                                *)
EXTENDS QueueStore, IOUtils

Size   == atoi(IOEnv.MBT_QSIZE)
MaxLen == atoi(IOEnv.MBT_MAXLEN)
\* (id, total length): unaligned and aligned lengths, a duplicate id
Shapes == << [id |-> 1, len |-> 96], [id |-> 2, len |-> 97], [id |-> 3, len |-> 136], [id |-> 1, len |-> 150] >>
VARIABLES C, A, path
vars == <<C, A, path>>
Init == C = [recs |-> <<>>, cur |-> FirstItem] /\ A = <<>> /\ path = <<>>
\* path codes: 1..4 add shape; 10 + n remove n
Add == \E k \in DOMAIN Shapes :
  LET r == CAdd(C, Shapes[k].id, Shapes[k].len, Size)
      fits == Fits(A, Shapes[k].len, Size)
  IN  /\ Assert(r.ok = fits, <<"insertion accepted iff it fits", path, k>>)
      /\ C' = r.C
      /\ A' = IF fits THEN Append(A, [id |-> Shapes[k].id, off |-> TailOf(A), len |-> Shapes[k].len]) ELSE A
      /\ path' = Append(path, k)
Rem == \E n \in 0..Len(A) :
  LET r == CRemove(C, n)
  IN  /\ Assert(r.ok = (n < Len(A)), <<"removal", path, n>>)
      /\ C' = r.C
      /\ A' = IF n < Len(A) THEN Remove(A, n + 1) ELSE A
      /\ path' = Append(path, 10 + n)
Next == Len(path) < MaxLen /\ (Add \/ Rem)
View == <<C, A>>
Refines == Abs(C) = A
WellFormed ==
  /\ C.cur <= Size /\ C.cur >= FirstItem
  /\ \A i \in DOMAIN C.recs : C.recs[i].off % 8 = 0 /\ C.recs[i].off + C.recs[i].len <= C.cur
  /\ \A i \in 2..Len(C.recs) : Align8(C.recs[i - 1].off + C.recs[i - 1].len) = C.recs[i].off
Regains == A = <<>> => Fits(A, Size - FirstItem, Size)
Export == PrintT("@@P " \o ToString(path))
=============================================================================
