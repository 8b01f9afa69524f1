------------------------------ MODULE CliJudge ------------------------------
(* Validates recorded runs of the real command line tool against OracleCli *)
EXTENDS OracleCli, Json, IOUtils
States == ndJsonDeserialize(IOEnv.MBT_STATES)
Steps  == ndJsonDeserialize(IOEnv.MBT_STEPS)
Chunks == 8
B(ok, what) == IF ok THEN {} ELSE {what}

Same(S, T) ==
  /\ S.reg = T.reg /\ S.od = T.od /\ S.raw = T.raw /\ S.bad = T.bad /\ T.frac = <<>> /\ S.slot = T.slot
  /\ DOMAIN S.q = DOMAIN T.q
  /\ \A q \in DOMAIN S.q :
       /\ S.q[q].st = T.q[q].st /\ S.q[q].own = T.q[q].own /\ S.q[q].size = T.q[q].size /\ S.q[q].idx = T.q[q].idx
       /\ S.q[q].n = T.q[q].n /\ Len(S.q[q].items) = Len(T.q[q].items)
  /\ \A k \in (DOMAIN S.bal) \cup (DOMAIN T.bal) : Get(S.bal, k, 0) = Get(T.bal, k, 0)
Landed(r) == Len(r.txs) > 0 /\ r.txs[Len(r.txs)].landed
Plain(cs) ==
  LET keep(c) == c.prog # "dlp" /\ c.by = "vrf" IN Filter(cs, keep)
SameCalls(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(want) : want[i].prog = got[i].prog /\ want[i].acc = got[i].acc

Check(s) ==
  LET S == States[s.f] T == States[s.t] c == s.c r == s.r
      es == Instrs(S, c)
  IN
  IF c.cmd \in Reading
  THEN IF Hindered(c) /\ r.exit # 0 THEN B(r.txs = <<>> /\ Same(S, T), c.cmd \o ": sent a transaction") ELSE
       B(r.exit = 0, c.cmd \o ": failed")
       \cup B(r.txs = <<>> /\ Same(S, T), c.cmd \o ": sent a transaction")
       \cup (IF c.cmd = "derive" THEN B(r.key = c.who, "derive: not the key the service uses for this identity")
             ELSE B(Range(r.rows) = Rows(S, c) /\ Len(r.rows) = Cardinality(Rows(S, c)), "list: not exactly the existing queues with their count, index and custody"))
  ELSE
    B(Len(r.txs) <= 1, c.cmd \o ": more than one transaction")
    \cup B(\A i \in DOMAIN r.txs : r.txs[i].payer = c.who /\ r.txs[i].nsig = 1 /\ r.txs[i].sig /\ r.txs[i].hash,
           c.cmd \o ": not signed by the operator alone over a fresh blockhash")
    \cup (IF Landed(r)
          THEN B(r.exit = 0, c.cmd \o ": reported failure although it took effect")
               \cup (IF ~ Possible(S, c) THEN {c.cmd \o ": took effect although what it names does not allow it"}
                     ELSE B(Same(Fold(S, es), T), c.cmd \o ": did something else than it names")
                          \cup B(c.cmd = "delegate" \/ SameCalls(CmdCalls(S, c), Plain(r.txs[Len(r.txs)].calls)), c.cmd \o ": calls made"))
          ELSE B(r.exit # 0, c.cmd \o ": reported success without effect")
               \cup B(Same(S, T), c.cmd \o ": failed but changed something")
               \cup B(Hindered(c) \/ ~ Works(S, c), c.cmd \o ": a correct command failed"))

NSp == Len(Steps)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= NSp /\ pos' = pos + Chunks
Report == pos <= NSp => \A v \in Check(Steps[pos]) : PrintT("@@V " \o ToString(pos) \o " " \o v)
=============================================================================
