-------------------------------- MODULE Rnd --------------------------------
(***************************************************************************)
(* The random helpers of the SDK (sdk/src/rnd.rs).                         *)
(*                                                                         *)
(* Part 1 (ASSUME'd facts, evaluated exhaustively by TLC): rejection       *)
(* sampling over one byte is exactly balanced for every range size, and    *)
(* the chance that all 32 bytes are rejected is negligible.                *)
(* Part 2: judgement of recorded calls of the real helpers: totality,      *)
(* purity, membership in the range, and balance of the counts over         *)
(* uniformly random bytes.  Calls that agree with the reference algorithm  *)
(* (Ranged below) are counted; disagreement alone is not a violation, as   *)
(* any other unbiased method serves the property as well.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Byte == 0..255
Accepted(range) == (256 \div range) * range      \* bytes below are accepted
\* the reference: scan from the last byte, first accepted byte decides
Ranged(bs, lo, hi) ==
  LET range == hi - lo + 1
      acc == {i \in 1..32 : bs[i] < Accepted(range)}
      i == IF acc = {} THEN 32 ELSE CHOOSE x \in acc : \A y \in acc : y <= x
  IN  lo + (bs[i] % range)

\* every value of the range is hit by equally many accepted bytes
ASSUME \A range \in 1..256 : \A v \in 0..(range - 1) :
  Cardinality({b \in Byte : b < Accepted(range) /\ b % range = v}) = 256 \div range
\* at least half of the bytes are accepted: all 32 are rejected with chance <= 2^-32
ASSUME \A range \in 1..256 : Accepted(range) >= 128

Recs == ndJsonDeserialize(IOEnv.MBT_STEPS)
V(ok, what) == IF ok THEN {} ELSE {what}
Abs(x) == IF x < 0 THEN -x ELSE x
\* 10 * square root, rounded up
Sqrt10(n) == CHOOSE x \in 0..400 : x * x >= 100 * n /\ \A y \in 0..(x - 1) : y * y < 100 * n

\* kind "call":  b (32 bytes), lo, hi, st, out, again (second call), other (helper results equal on second call)
\* kind "count": h, range, n, root (root^2 = n), cnt (one per value)
\* kind "bits":  helper, n, root, ones, pairs (list of deviations from n/4 beyond the bound are in cnt)
Check(s) ==
  CASE s.k = "call" ->
         V(s.st = "ok", "random_u8_with_range crashed")
         \cup (IF s.st # "ok" THEN {} ELSE
               V(s.out >= s.lo /\ s.out <= s.hi, "random_u8_with_range left the range")
               \cup V(s.again = s.out, "random_u8_with_range is not a function of its arguments"))
    [] s.k = "count" ->
         \* 6.5 standard deviations:  |cnt * range - n| <= 6.5 * sqrt(n * (range - 1))
         V(\A i \in 1..Len(s.cnt) : Abs(s.cnt[i] * s.range - s.n) <= ((65 * s.root) \div 100) * Sqrt10(s.range - 1) + s.range,
           s.h \o " favours some of the values, range " \o ToString(s.range))
         \cup V(Len(s.cnt) = s.range, "counts")
    [] s.k = "fixed" ->
         V(s.st = "ok", s.h \o " crashed")
         \cup V(s.pure, s.h \o " is not a function of the bytes")
    [] s.k = "bits" ->
         \* each bit, and each pair of bits, is balanced (6.5 standard deviations)
         V(\A i \in 1..Len(s.ones) : Abs(2 * s.ones[i] - s.n) <= (65 * s.root) \div 10, s.h \o " has an unbalanced bit")
         \cup V(\A i \in 1..Len(s.pairs) : Abs(4 * s.pairs[i] - s.n) <= (65 * s.root * 18) \div 100, s.h \o " has dependent bits")
    [] OTHER -> {"unknown record"}
Agrees(s) == s.k = "call" /\ s.st = "ok" /\ s.out = Ranged(s.b, s.lo, s.hi)

Chunks == 8
N == Len(Recs)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= N /\ pos' = pos + Chunks
Report ==
  pos <= N =>
    /\ \A v \in Check(Recs[pos]) : PrintT("@@V C20 step " \o ToString(pos) \o " " \o v)
    /\ (Recs[pos].k = "call" /\ ~Agrees(Recs[pos])) => PrintT("@@D " \o ToString(pos))
=============================================================================
