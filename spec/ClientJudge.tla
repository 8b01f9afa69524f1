---------------------------- MODULE ClientJudge ----------------------------
(* Validates recorded calls of the real client libraries against Clients *)
EXTENDS Clients, Json, IOUtils
Calls  == ndJsonDeserialize(IOEnv.MBT_CALLS)
Chunks == 8
B(ok, what) == IF ok THEN {} ELSE {what}
\* A consumer that declares none (form 0), some (1) or all (2) of the accounts itself and lets #[vrf] add
\* the others, called with the right accounts or with one of them forged: what was added is guarded.
Guarded(form) == CASE form = 0 -> {"id", "vrf", "slot hashes", "sys"}
                   [] form = 1 -> {"id", "vrf", "sys"}
                   [] OTHER    -> {"vrf", "sys"}
Consumer(c) ==
  IF c.wrong = ""
  THEN B(c.asks # -1, "accounts a consumer refuses (" \o c.by \o ")")
       \cup B(c.asks \in {-1, 1}, "number of requests of a consumer (" \o c.by \o ")")
  ELSE B(c.wrong \in Guarded(c.form) => c.asks = -1, "forged account a consumer accepts: " \o c.wrong \o " (" \o c.by \o ")")
\* The consumer hands the program every account of the request, and signs as its identity and nothing else.
Handed(c) ==
  B({Accounts(c.f, c.a)[i].k : i \in 1..Len(Accounts(c.f, c.a))} \ {"sys"} \subseteq {c.given[i] : i \in 1..Len(c.given)},
    "accounts a consumer hands over (" \o c.by \o ")")
  \cup B(c.signers = <<IdentityOf(c.a.prog)>>, "signers of a consumer (" \o c.by \o ")")
Check(c) ==
  IF c.f = "none" THEN {"a builder returned nothing"}
  ELSE IF c.f = "consumer" THEN Consumer(c)
  ELSE IF "key" \in DOMAIN c
  THEN B(c.key = Address(c.f, c.a), "address: " \o c.f \o " (" \o c.by \o ")")
  ELSE B(c.prog = "vrf", "program of " \o c.f \o " (" \o c.by \o ")")
       \* an account that is the same as another one carries the flags of both
       \cup B(Len(c.acc) = Len(Accounts(c.f, c.a)) /\ \A i \in 1..Len(c.acc) : c.acc[i] = Accounts(c.f, c.a)[i],
              "accounts of " \o c.f \o " (" \o c.by \o ")")
       \cup B(c.data = Data(c.f, c.a, c.hex), "data of " \o c.f \o " (" \o c.by \o ")")
       \cup B(c.f # "initq" \/ c.a.n = (c.a.size + 10239) \div 10240, "number of instructions that create a queue")
       \cup (IF "given" \in DOMAIN c THEN Handed(c) ELSE {})
NC == Len(Calls)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= NC /\ pos' = pos + Chunks
Report == pos <= NC => \A v \in Check(Calls[pos]) : PrintT("@@V " \o ToString(pos) \o " " \o v)
=============================================================================
