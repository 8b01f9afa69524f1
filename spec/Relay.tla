------------------------------- MODULE Relay -------------------------------
(* C18: who sees the signature of the program identity.  A fulfilment calls *)
(* the program that the request names, with the identity's signature; as on *)
(* Solana, a program may pass on any signature it was called with.          *)
(* Honest programs pass nothing on.                                         *)
(*   Scoped = FALSE: one identity for all callbacks (the code)              *)
(*   Scoped = TRUE:  an identity per named program (what would repair D6)   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Scoped
Honest == {"V", "H"}
Evil == {"E", "F"}
Progs == Honest \cup Evil
Data == {1, 2}
MaxDepth == 4
VARIABLES reqs, stack, seen
\* seen: the last such call: [at, data, by, root]: a program was called with the identity's signature
vars == <<reqs, stack, seen>>
Init == reqs = {} /\ stack = <<>> /\ seen = {}
Top == stack[Len(stack)]
Request(p, d) == /\ stack = <<>> /\ reqs' = reqs \cup {<<p, d>>} /\ seen' = {} /\ UNCHANGED stack
Fulfil(r) ==
  /\ stack = <<>>
  /\ stack' = <<[prog |-> r[1], holds |-> TRUE, root |-> r[1]]>>
  /\ seen' = {[at |-> r[1], data |-> r[2], by |-> "vrf", root |-> r[1]]}
  /\ UNCHANGED reqs
Pass(p, d, h) ==
  /\ stack # <<>> /\ Len(stack) < MaxDepth
  /\ Top.prog \in Evil /\ (h => Top.holds)
  /\ \A i \in 1..Len(stack) : stack[i].prog # p
  /\ stack' = Append(stack, [prog |-> p, holds |-> h, root |-> Top.root])
  /\ seen' = IF h THEN {[at |-> p, data |-> d, by |-> Top.prog, root |-> Top.root]} ELSE seen
  /\ UNCHANGED reqs
Return == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ seen' = {} /\ UNCHANGED reqs
Next == \/ \E p \in Progs, d \in Data : Request(p, d)
        \/ \E r \in reqs : Fulfil(r)
        \/ \E p \in Progs, d \in Data, h \in BOOLEAN : Pass(p, d, h)
        \/ Return
Spec == Init /\ [][Next]_vars
\* what a consumer accepts: a call with the identity's signature (its own identity, if scoped)
Accepts(s) == IF Scoped THEN s.root = s.at ELSE TRUE
\* the VRF program itself signs callbacks of requests only
Direct == \A s \in seen : s.by = "vrf" => <<s.at, s.data>> \in reqs
\* a signature is passed on only if the request names a program that does so
OnlyNamed == \A s \in seen : s.by # "vrf" => s.root \in Evil
\* C18 (violated by the code: D6)
Auth == \A s \in seen : (s.at \in Honest /\ Accepts(s)) => s.by = "vrf" /\ <<s.at, s.data>> \in reqs
=============================================================================
