---------------------------- MODULE CryptoJudge ----------------------------
(* Judges recorded evaluations and verifications of the real VRF code.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.MBT_STEPS)
V(ok, p, what) == IF ok THEN {} ELSE {<<p, what>>}
Set(q) == {q[i] : i \in DOMAIN q}
Verdicts == {"accept", "reject"}
Check(s) ==
  CASE s.k = "honest" ->
         V(s.same, "C14", "evaluating twice gives different results")
         \cup V(s.off = "accept", "C14", "an honest proof is not accepted off chain (" \o s.off \o ")")
         \cup V(s.on = "accept", "C14", "an honest proof is not accepted on chain (" \o s.on \o ")")
    [] s.k = "other" ->           \* any other key, input and proof
         V(s.off \in Verdicts /\ s.on \in Verdicts, "C14", "a verifier crashed on " \o s.what)
         \cup V(s.off = s.on, "C14", "the verifiers disagree on " \o s.what)
         \* gen: the output is the true one; tamper: an accepted proof in which this was replaced
         \cup V((s.on = "accept" \/ s.off = "accept") => s.true, "C15", "an output other than the true one is accepted: " \o s.what)
         \cup V((s.on = "accept" \/ s.off = "accept") => ~s.tamper, "C15", "a tampered proof is accepted: " \o s.what)
    [] s.k = "nonces" ->          \* commitments to nonces, one per key and input
         V(Cardinality(Set(s.a)) = Len(s.a), "C16", "a nonce is used twice (" \o s.what \o ")")
    [] s.k = "outputs" ->         \* of one key, for different inputs
         V(Cardinality(Set(s.a)) = Len(s.a), "C17", "the output of one id is published with that of another")
    [] s.k = "bytes" ->           \* number of different values of each byte of the nonce
         V(\A i \in DOMAIN s.distinct : s.distinct[i] > 1, "C16", "nonces have constant bytes")
    [] s.k = "keys" ->
         V(Cardinality(Set(s.pk)) = Len(s.pk), "C16", "different identities get the same VRF key")
         \cup V(s.again, "C16", "the same identity gets different VRF keys")
         \cup V(s.match, "C16", "public and secret VRF key do not belong together")
    [] s.k = "keydep" ->          \* bytes of the identity's secret that decide the VRF key
         V(s.bytes >= 16, "C16", "the VRF key hardly depends on the identity's secret")
         \cup V(s.bytes >= 16, "C17", "the VRF key, and with it every output, can be guessed: it hardly depends on the identity's secret")
    [] s.k = "short" ->           \* the challenge of an honest proof, if it is a small number
         {<<"C15", "a proof of any output can be ground: challenges have at most 32 bits">>}
    [] s.k = "leak" ->            \* a public derivation that gives the secret
         {<<"C16", s.what \o " follows from public data: " \o s.term>>,
          \* who has the key (or a nonce and its proof, hence the key) knows every later output
          <<"C17", s.what \o ", and with it every output, follows from public data: " \o s.term>>}
    [] s.k = "predict" ->
         {<<"C17", "output = " \o s.term>>}
    [] s.k = "scan" -> V(s.terms > 100, "C16", "nothing scanned")
    [] OTHER -> {<<"C14", "unknown record">>}
Chunks == 8
N == Len(Recs)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= N /\ pos' = pos + Chunks
Report == pos <= N => \A v \in Check(Recs[pos]) : PrintT("@@V " \o v[1] \o " step " \o ToString(pos) \o " " \o v[2])
=============================================================================
