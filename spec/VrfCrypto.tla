----------------------------- MODULE VrfCrypto -----------------------------
(***************************************************************************)
(* The verifiable random function, on two levels.                          *)
(*                                                                         *)
(* 1. Algebra over a toy group of prime order Q, points written as their   *)
(*    discrete logarithms.  A proof for (pk, h) is (gamma, A, B, s); with  *)
(*    challenge c it is accepted iff                                       *)
(*        base:  s*G = A + c*pk        hash:  s*h = B + c*gamma            *)
(*    TLC evaluates for every value: completeness, soundness (an output    *)
(*    other than sk*h can be proven for at most one challenge), key        *)
(*    extraction from a reused nonce, and the forging game of every        *)
(*    weakened verifier (a component left out of the challenge hash, an    *)
(*    equation not checked).  Each forgeable variant is exported and       *)
(*    played against the real verifiers, which must reject.                *)
(* 2. Symbolic knowledge: which terms can be computed from public data.    *)
(*    The keys and nonces of the scheme must not be among them; the        *)
(*    output before publication is, when ids are mapped to the curve as a  *)
(*    public scalar times the generator (see Predictable).  The closure is *)
(*    exported and compared with the values of the real code.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q == 5
F == 0..(Q - 1)
NZ == 1..(Q - 1)
Mod(x) == x % Q
Base(pk, A, c, s)     == Mod(s) = Mod(A + c * pk)
Hash(h, g, B, c, s)   == Mod(s * h) = Mod(B + c * g)
Both == {"base", "hash"}
\* a verifier that checks one combination of the equations instead of each: weights of the two
Weights == "sum" :> <<1, 1>> @@ "diff" :> <<1, Q - 1>> @@ "twice" :> <<2, 1>> @@ "thrice" :> <<1, 3>>
Combined(n, pk, h, g, A, B, c, s) ==
  LET a == IF n = "chal" THEN <<1, c>> ELSE IF n = "lahc" THEN <<c, 1>> ELSE Weights[n]
  IN  Mod(a[1] * s + a[2] * s * h) = Mod(a[1] * (A + c * pk) + a[2] * (B + c * g))
Combos == {"sum", "diff", "twice", "thrice", "chal", "lahc"}
Accept(E, pk, h, g, A, B, c, s) ==
  /\ ("base" \in E => Base(pk, A, c, s))
  /\ ("hash" \in E => Hash(h, g, B, c, s))
  /\ \A n \in E \cap Combos : Combined(n, pk, h, g, A, B, c, s)
Inv(x) == CHOOSE y \in NZ : Mod(x * y) = 1

Complete == \A sk \in NZ, h \in NZ, k \in F, c \in F :
  Accept(Both, sk, h, Mod(sk * h), k, Mod(k * h), c, Mod(k + c * sk))
Sound == \A sk \in NZ, h \in NZ, g \in F, A \in F, B \in F :
  g # Mod(sk * h) => Cardinality({c \in F : \E s \in F : Accept(Both, sk, h, g, A, B, c, s)}) <= 1
Unique == \A sk \in NZ, h \in NZ, A \in F, B \in F, c1 \in F, c2 \in F, g \in F :
  (c1 # c2 /\ (\E s \in F : Accept(Both, sk, h, g, A, B, c1, s)) /\ (\E s \in F : Accept(Both, sk, h, g, A, B, c2, s)))
  => g = Mod(sk * h)
ReuseLeaks == \A sk \in NZ, k \in F, c1 \in F, c2 \in F :
  c1 # c2 => LET s1 == Mod(k + c1 * sk)
                 s2 == Mod(k + c2 * sk)
             IN  Mod((s1 - s2 + Q) * Inv(Mod(c1 - c2 + Q))) = sk
\* nonces in a known affine relation leak as well:  k2 = a*k1 + b
AffineLeaks == \A sk \in NZ, k \in F, a \in NZ, b \in F, c1 \in F, c2 \in F :
  Mod(c2 - a * c1 + Q * Q) # 0 =>
    LET s1 == Mod(k + c1 * sk)
        s2 == Mod(a * k + b + c2 * sk)
    IN  Mod((s2 - a * s1 - b + Q * Q * Q) * Inv(Mod(c2 - a * c1 + Q * Q))) = sk
ASSUME Complete
ASSUME Sound
ASSUME Unique
ASSUME ReuseLeaks
ASSUME AffineLeaks

\* the forging game: what is hashed is fixed before the challenge is known, the rest after
Comps == {"gamma", "A", "B"}
\* (with discrete logarithms known, as they are in the code, a combination is solved for the response
\*  unless the weights cancel: negligible in the real group, excluded or tolerated here)
Cancel(n, h) == n \in DOMAIN Weights /\ Mod(Weights[n][1] + Weights[n][2] * h) = 0
Forgeable(O, E) == \A sk \in {2, 3}, h \in {x \in NZ : \A n \in E : ~Cancel(n, x)} :
  \E g1 \in F, A1 \in F, B1 \in F :
    Cardinality({c \in NZ :
      \E g \in (IF "gamma" \in O THEN F ELSE {g1}), A \in (IF "A" \in O THEN F ELSE {A1}),
         B \in (IF "B" \in O THEN F ELSE {B1}), s \in F :
        g # Mod(sk * h) /\ Accept(E, sk, h, g, A, B, c, s)}) >= Q - 2
Variants == {<<O, E>> : O \in SUBSET Comps, E \in SUBSET Both \cup {{n} : n \in Combos}}
Weak == {v \in Variants : Forgeable(v[1], v[2])}
\* the scheme itself is not forgeable, and every part of the verification is needed
ASSUME <<{}, Both>> \notin Weak
ASSUME Weak = Variants \ {<<{}, Both>>}

\* ------------------------------------------------------------- knowledge
Public == {"input", "pk", "id", "gamma", "Pchal", "Ph2p", "Ph2s", "Pnonce", "Pkey"}
Secret == {"seed", "sk"}
Seqs(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S} \cup
           {<<a, b, c>> : a \in S, b \in S, c \in S}
NoRep(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Known == {q \in Seqs(Public) : NoRep(q)}           \* arguments of a derivation anybody can make
KeyTerm   == <<"seed", "id">>
NonceTerm == <<"sk", "input">>
ASSUME KeyTerm \notin Known /\ NonceTerm \notin Known
\* both the key and the input enter the nonce; the secret enters the key
ASSUME {"sk", "input"} \subseteq {NonceTerm[i] : i \in DOMAIN NonceTerm}
ASSUME "seed" \in {KeyTerm[i] : i \in DOMAIN KeyTerm}

\* Points as a base and the set of scalars multiplied to it.  A public scalar times a public
\* point is public.
Output(mode) == IF mode = "scalar" THEN [base |-> "G", by |-> {"sk", "t"}] ELSE [base |-> "Hx", by |-> {"sk"}]
PublicPoints(mode) ==      \* pk = sk*G;  t: public derivations of the input
  LET start == {[base |-> "G", by |-> {}], [base |-> "G", by |-> {"sk"}], [base |-> "Hx", by |-> {}]}
  IN  start \cup {[p EXCEPT !.by = @ \cup {"t"}] : p \in start}
Predictable(mode) == Output(mode) \in PublicPoints(mode)
ASSUME Predictable("scalar")      \* what the code does (known finding of C17)
ASSUME ~Predictable("curve")      \* what hashing to the curve would do

VARIABLE out
Init == out \in {<<"S", v[1], v[2]>> : v \in Weak} \cup {<<"K", q>> : q \in Known}
Next == UNCHANGED out
Export == IF out[1] = "S" THEN PrintT("@@S " \o ToString(out[2]) \o " | " \o ToString(out[3]))
          ELSE PrintT("@@K " \o ToString(out[2]))
=============================================================================
