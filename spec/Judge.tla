------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace validation: every recorded step of the real program               *)
(*    f --e/r--> t                                                         *)
(* must be a step of VrfProgram.  f and t index the table of projected     *)
(* real states.  Each disagreement is attributed to the properties it      *)
(* breaks.                                                                 *)
(***************************************************************************)
EXTENDS VrfProgram, Json, IOUtils

States == ndJsonDeserialize(IOEnv.MBT_STATES)
Steps  == ndJsonDeserialize(IOEnv.MBT_STEPS)
Chunks == 8

V(p, what) == {[p |-> y, what |-> what] : y \in p}

\* ------------------------------------------------------------ attribution
RECURSIVE QProp(_)
QProp(e) ==
  CASE e.ix = "tx" -> UNION {QProp(e.es[i]) : i \in 1..Len(e.es)}
    [] e.ix = "transfer" -> {}
    [] e.ix = "request" -> {"C04"}
    [] e.ix = "provide" -> {"C02"}
    [] e.ix = "purge"   -> {"C08"}
    [] e.ix = "close"   -> {"C11"}
    [] e.ix \in {"initq", "initall"} -> {"C10"}
    [] e.ix \in {"delegate", "undelegate", "dlpback", "pund"} -> {"C13"}
    [] OTHER -> {"C09"}
RECURSIVE ItemsProp(_)
ItemsProp(e) ==
  CASE e.ix = "tx" -> UNION {ItemsProp(e.es[i]) : i \in 1..Len(e.es)}
    [] e.ix = "request" -> {"C04"}
    [] e.ix = "provide" -> {"C02"}
    [] e.ix = "purge"   -> {"C02", "C08"}
    [] OTHER -> QProp(e)
FrameProp(e) ==
  CASE e.ix = "modify" -> {"C09"} [] e.ix = "init" -> {"C09"} [] OTHER -> QProp(e)
RECURSIVE BalProp(_)
BalProp(e) ==
  {"C07"} \cup (IF e.ix = "tx" THEN UNION {BalProp(e.es[i]) : i \in 1..Len(e.es)} ELSE {})
         \cup (IF e.ix = "purge" THEN {"C08"} ELSE {}) \cup (IF e.ix = "close" THEN {"C11"} ELSE {})
\* accepting although a condition is false may also concern the builder's instruction
ByBuilder(e) == IF "b" \in DOMAIN e /\ e.b # "" THEN {"C19"} ELSE {}
\* the properties that promise acceptance
RECURSIVE AcceptProp(_, _)
AcceptProp(S, e) ==
  CASE e.ix = "tx"      -> UNION {AcceptProp(S, e.es[i]) : i \in 1..Len(e.es)}
    [] e.ix = "transfer" -> {}
    [] e.ix = "init"    -> {"C09"}
    [] e.ix = "modify"  -> {"C09"} \cup (IF e.x.op = 1 THEN {"C11"} ELSE {})
    [] e.ix = "initq"   -> {"C10"}
    [] e.ix = "request" -> {"C04"}
    [] e.ix = "provide" -> {"C01", "C02", "C03", "C05"}
    [] e.ix = "purge"   -> {"C08"}
    [] e.ix = "close"   -> {"C11"}
    [] OTHER -> {"C13"}

\* ------------------------------------------------------------ differences
\* a stored request that is not the one that was made concerns what it decides later
LastItemProp(e, a, b) ==
  IF e.ix # "request" \/ a = <<>> \/ Len(a) # Len(b) THEN {}
  ELSE LET x == a[Len(a)] y == b[Len(b)] IN
       (IF x.prog # y.prog \/ x.disc # y.disc \/ x.args # y.args \/ Len(x.metas) # Len(y.metas) THEN {"C03"}
        ELSE IF \E j \in 1..Len(x.metas) : x.metas[j].k # y.metas[j].k \/ x.metas[j].w # y.metas[j].w THEN {"C03"} ELSE {})
       \cup (IF x.slot # y.slot THEN {"C05", "C08"} ELSE {})
       \cup (IF x.prio # y.prio THEN {"C07"} ELSE {})
SameItems(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       /\ a[i].id = b[i].id /\ a[i].slot = b[i].slot /\ a[i].prio = b[i].prio
       /\ a[i].prog = b[i].prog /\ a[i].disc = b[i].disc /\ a[i].args = b[i].args
       /\ Len(a[i].metas) = Len(b[i].metas)
       /\ \A j \in 1..Len(a[i].metas) : a[i].metas[j].k = b[i].metas[j].k /\ a[i].metas[j].w = b[i].metas[j].w
QDiff(e, want, got) ==
  UNION { IF q \notin DOMAIN want \/ q \notin DOMAIN got THEN V(QProp(e), "queue " \o q \o " appeared or vanished")
          ELSE (IF want[q].st # got[q].st \/ want[q].size # got[q].size \/ want[q].idx # got[q].idx
                THEN V(QProp(e) \cup (IF e.ix = "initq" THEN {"C10"} ELSE {}), "queue " \o q \o " status, size or index")
                ELSE {})
               \cup (IF want[q].own # got[q].own THEN V(QProp(e) \cup {"C13"}, "custody of " \o q) ELSE {})
               \cup (IF ~ SameItems(want[q].items, got[q].items)
                     THEN V(ItemsProp(e) \cup LastItemProp(e, want[q].items, got[q].items), "pending requests of " \o q) ELSE {})
               \cup (IF want[q].n # got[q].n THEN V(ItemsProp(e) \cup {"C11"}, "item count of " \o q) ELSE {})
        : q \in (DOMAIN want) \cup (DOMAIN got) }
OdDiff(e, want, got) ==
  UNION { IF o \notin DOMAIN want \/ o \notin DOMAIN got THEN V({"C09"}, "data of oracle " \o o \o " appeared or vanished")
          ELSE (IF want[o].st # got[o].st \/ want[o].vk # got[o].vk \/ want[o].reg # got[o].reg
                THEN V({"C09"}, "data of oracle " \o o) ELSE {})
               \cup (IF want[o].open # got[o].open THEN V({"C11"}, "open queues of " \o o) ELSE {})
        : o \in (DOMAIN want) \cup (DOMAIN got) }
BalDiff(e, want, got) ==
  LET bad == {k \in (DOMAIN want) \cup (DOMAIN got) : Get(want, k, 0) # Get(got, k, 0)}
  IN  IF bad = {} THEN {} ELSE V(BalProp(e), "balance of " \o (CHOOSE k \in bad : TRUE))
Diff(e, want, got) ==
  (IF want.reg # got.reg THEN V({"C09"}, "registry") ELSE {})
  \cup OdDiff(e, want.od, got.od)
  \cup QDiff(e, want.q, got.q)
  \cup BalDiff(e, want.bal, got.bal)
  \cup (IF got.frac # <<>> THEN V(BalProp(e), "amount moved") ELSE {})
  \cup (IF want.raw # got.raw THEN V(FrameProp(e), "an unrelated account changed") ELSE {})
  \cup (IF want.bad # got.bad THEN V(FrameProp(e), "unexpected owner or data") ELSE {})

\* the properties a wrong result of an instruction concerns besides the specific ones
Also(e, vs) == IF ByBuilder(e) = {} THEN vs
               ELSE vs \cup {[p |-> "C19", what |-> v.what] : v \in {u \in vs : "C07" # u.p /\ "C03" # u.p}}

WithOuth(e, r) == IF e.ix = "provide" THEN [e EXCEPT !.x = Put(e.x, "outh", r.outh)] ELSE e
PlainCalls(cs) ==
  LET keep(c) == c.prog # "dlp" /\ c.by = "vrf"
  IN  Filter(cs, keep)
SameCalls(want, got) ==
  Len(want) = Len(got) /\ \A i \in 1..Len(want) :
                 /\ want[i].prog = got[i].prog
                 /\ want[i].acc = got[i].acc
                 /\ (want[i].prog # "magic" => want[i].data = got[i].data)
CallDiff(S, e, r) ==
  LET want == Calls(S, WithOuth(e, r))
      got  == PlainCalls(r.calls)
  IN  IF e.ix = "delegate" THEN {}
      ELSE IF Len(want) = Len(got) /\ \A i \in 1..Len(want) :
                 /\ want[i].prog = got[i].prog
                 /\ want[i].acc = got[i].acc
                 /\ (e.ix = "provide" => want[i].data = got[i].data)
           THEN {}
           ELSE V(IF e.ix = "provide" THEN {"C03"} ELSE QProp(e), "calls made")

\* ------------------------------------------------------------ who sees the identity's signature (C18)
Signed(c) == \E i \in 1..Len(c.acc) : c.acc[i].k = "vrfid" /\ c.acc[i].s
IdentityCalls(r, want) ==
  IF ~ \E c \in Range(r.calls) : Signed(c) THEN {}
  ELSE
  LET named == {want[i].prog : i \in 1..Len(want)} \ {"magic"}
      \* programs that hold the signature: named by the request, or called with it by one that holds it
      F[i \in 0..Len(r.calls)] ==
        IF i = 0 THEN {} ELSE IF Signed(r.calls[i]) /\ (r.calls[i].by \in F[i - 1] \/ (r.calls[i].by = "vrf" /\ r.calls[i].prog \in named))
                              THEN F[i - 1] \cup {r.calls[i].prog} ELSE F[i - 1]
      One(i) ==
        LET c == r.calls[i] IN
        IF ~ Signed(c) THEN {}
        ELSE IF c.by = "vrf"
        THEN (IF \E w \in Range(want) : w.prog = c.prog /\ w.acc = c.acc /\ w.data = c.data THEN {}
              ELSE V({"C18"}, "the identity signed a call that is not the callback of the request"))
        ELSE V({"C18"}, IF c.by \in F[i - 1] THEN "the named callback program passed the signature on"
                        ELSE "a program that no request names passed the signature on")
  IN  UNION {One(i) : i \in 1..Len(r.calls)}
IdentityDiff(S, e, r) ==
  LET known == e.ix = "provide" /\ N(e) >= MinAcc(e.ix) /\ Pending(S, K(e, 4), e.x.input)
  IN  IdentityCalls(r, IF known THEN Calls(S, WithOuth(e, r)) ELSE <<>>)

\* ------------------------------------------------------------ builders (C19)
A3(k, s, w) == [k |-> k, s |-> s, w |-> w]
Canon(e) ==
  LET o == e.o IN
  CASE e.ix = "init" -> <<A3(o.signer, TRUE, TRUE), A3("oracles", FALSE, TRUE), A3("sys", FALSE, FALSE)>>
    [] e.ix = "modify" -> <<A3(o.signer, TRUE, TRUE), A3("oracles", FALSE, TRUE), A3(OdOf(e.x.id), FALSE, TRUE),
                            A3("pd", FALSE, FALSE), A3("sys", FALSE, FALSE)>>
    [] e.ix = "initq" -> <<A3(o.signer, TRUE, TRUE), A3(o.oracle, TRUE, o.signer = o.oracle), A3(OdOf(o.oracle), FALSE, TRUE),
                           A3(QOf(o.oracle, e.x.idx), FALSE, TRUE), A3("sys", FALSE, FALSE)>>
    [] e.ix = "request" -> <<A3(o.payer, TRUE, TRUE), A3(IdOf(e.x.prog), TRUE, FALSE), A3(o.queue, FALSE, TRUE),
                             A3("sys", FALSE, FALSE), A3("sh", FALSE, FALSE)>>
    [] e.ix = "provide" -> <<A3(o.oracle, TRUE, TRUE), A3("vrfid", FALSE, FALSE), A3(OdOf(o.oracle), FALSE, FALSE),
                             A3(o.queue, FALSE, TRUE), A3(o.prog, FALSE, FALSE)>>
    [] e.ix = "purge" -> <<A3(o.oracle, FALSE, TRUE), A3(QOf(o.oracle, e.x.idx), FALSE, TRUE)>>
    [] e.ix = "close" -> <<A3(o.oracle, TRUE, TRUE), A3(OdOf(o.oracle), FALSE, TRUE), A3(QOf(o.oracle, e.x.idx), FALSE, TRUE)>>
    [] e.ix = "delegate" -> <<A3(o.oracle, TRUE, TRUE), A3(o.queue, FALSE, TRUE), A3("buf:" \o o.queue, FALSE, TRUE),
                              A3("rec:" \o o.queue, FALSE, TRUE), A3("meta:" \o o.queue, FALSE, TRUE),
                              A3("dlp", FALSE, FALSE), A3("vrf", FALSE, FALSE), A3("sys", FALSE, FALSE)>>
    [] OTHER -> <<A3(o.oracle, TRUE, TRUE), A3(o.queue, FALSE, TRUE), A3("mctx", FALSE, TRUE), A3("magic", FALSE, FALSE)>>
BuilderBad(e) ==
  LET n == Len(Canon(e)) IN
  IF ByBuilder(e) = {} \/ e.b = "macro" THEN {}
  ELSE IF ~ ("built" \in DOMAIN e) THEN V({"C19"}, "builder crashed")
  ELSE IF e.progid # "vrf" THEN V({"C19"}, "program id of the builder")
  ELSE IF e.ix = "initq" /\ e.o.signer = e.o.oracle
       THEN (IF Len(e.built) = 5 /\ \A i \in 1..5 : e.built[i].k = Canon(e)[i].k /\ e.built[i].s = Canon(e)[i].s
             THEN {} ELSE V({"C19"}, "accounts of the builder"))
  ELSE IF Len(e.built) < n \/ SubSeq(e.built, 1, n) # Canon(e) \/ (e.ix # "provide" /\ Len(e.built) # n)
       THEN V({"C19"}, "accounts of the builder") ELSE {}

\* ------------------------------------------------------------ one step
EnvSteps == {"prog", "slot", "fund", "auth", "ercommit", "probe"}
ProbeBad(s) ==      \* differential test of request ids
  LET ids == s.r.ids IN
  (IF Cardinality(Range(ids)) # Len(ids) THEN V({"C06"}, "request ids of different circumstances coincide") ELSE {})
\* the list of instructions that creates a queue, as one transaction
AllBad(s) ==
  LET S == States[s.f] T == States[s.t] e == s.e r == s.r
      es == InitAll(e)
      flags(i) == Len(e.list[i].acc) = 5 /\ \A j \in 1..5 :
                    /\ e.list[i].acc[j].k = Canon(es[i])[j].k /\ e.list[i].acc[j].s = Canon(es[i])[j].s
                    /\ (j # 2 /\ Canon(es[i])[j].w) => e.list[i].acc[j].w
  IN  IF ~ ("list" \in DOMAIN e) THEN V({"C19"}, "builder crashed")
      ELSE IF Len(e.list) # Len(es) THEN V({"C19"}, "number of instructions that create a queue")
      ELSE IF \E i \in 1..Len(es) : e.list[i].prog # "vrf" \/ ~ flags(i) THEN V({"C19"}, "accounts of the builder")
      ELSE IF r.ok
           THEN IF ~ AllMay(S, es) THEN V({"C10"}, "a queue was created although a condition is false")
                ELSE Also(e, Diff(e, Fold(S, es), T))
           ELSE (IF AllMust(S, es) THEN V({"C10", "C19"}, "the instructions that create a queue were rejected: " \o r.err) ELSE {})
                \cup Diff(e, S, T)
\* several instructions as one transaction
TxBad(s) ==
  LET S == States[s.f] T == States[s.t] e == s.e r == s.r
      may == MayTx(S, e.es, r.ids)
  IN  IF ~ r.ok
      THEN (IF MustTx(S, e.es, r.ids).bad = 0 THEN V(AcceptProp(S, e), "a correct transaction was rejected: " \o r.err) ELSE {})
           \cup Diff(e, S, T)
      ELSE IF may.bad = -1 THEN {}
      ELSE IF may.bad # 0
      THEN UNION {V(c.p, "part of a transaction accepted although false: " \o c.c) : c \in Forbidden(may.S, e.es[may.bad])}
      ELSE IF \E i \in 1..Len(e.es) : e.es[i].ix = "request" /\ r.ids[i] = ""
      THEN V({"C04", "C06"}, "no new id for an accepted request")
      ELSE Diff(e, may.S, T) \cup IdentityCalls(r, may.calls)
           \cup (IF SameCalls(may.calls, PlainCalls(r.calls)) THEN {} ELSE V({"C03", "C13"}, "calls made"))
\* many requests, one after the other: what holds for the first and the last holds for all
FillBad(s) ==
  LET S == States[s.f] T == States[s.t] r == s.r
      e == [s.e EXCEPT !.ix = "request"]
      forb == IF r.made = 0 THEN {}
              ELSE Forbidden(S, e) \cup (IF HasQ(S, K(e, 3)) THEN Forbidden(FillEffect(S, e, SubSeq(r.ids, 1, r.made - 1)), e) ELSE {})
  IN  IF Len(r.ids) # r.made THEN V({"C04", "C06"}, "no new id for an accepted request")
      ELSE IF forb # {} THEN UNION {V(c.p, "request accepted although false: " \o c.c) : c \in forb}
      ELSE (IF r.made = 0 THEN Diff(e, S, T) ELSE Diff(e, FillEffect(S, e, r.ids), T))
           \cup (IF ~ r.ok /\ MustAccept(IF r.made = 0 THEN S ELSE FillEffect(S, e, r.ids), e)
                 THEN V(AcceptProp(S, e), "a correct request was rejected: " \o r.err) ELSE {})
Check(s) ==
  LET S == States[s.f]
      T == States[s.t]
      e == s.e
      r == s.r
      forb == Forbidden(S, e)
  IN
  IF e.ix = "probe" THEN ProbeBad(s)
  ELSE IF e.ix = "initall" THEN AllBad(s)
  ELSE IF e.ix = "tx" THEN TxBad(s)
  ELSE IF e.ix = "fill" THEN FillBad(s)
  ELSE IF e.ix \in EnvSteps THEN {}
  ELSE BuilderBad(e) \cup Also(e,
    IF ~ r.ok
    THEN (IF MustAccept(S, e) THEN V(AcceptProp(S, e), "a correct " \o e.ix \o " was rejected: " \o r.err) ELSE {})
         \cup Diff(e, S, T)
    ELSE IF forb # {}
    THEN UNION {V(c.p, e.ix \o " accepted although false: " \o c.c) : c \in forb} \cup IdentityDiff(S, e, r)
    ELSE IF e.ix = "delegate" /\ ~ HasQ(S, K(e, 2)) THEN {}
    ELSE (IF e.ix = "request" /\ r.newid = ""
          THEN (IF K(e, 3) \in DOMAIN T.q /\ SameItems(S.q[K(e, 3)].items, T.q[K(e, 3)].items)
                THEN V({"C04"}, "an accepted request was not stored")
                ELSE V({"C06"}, "no new id for an accepted request")) ELSE
          Diff(e, Effect(S, e, r.newid), T)) \cup CallDiff(S, e, r) \cup IdentityDiff(S, e, r))

StateBad(S) ==
  (IF ~ EscrowOk(S) THEN V({"C07"}, "state: escrow") ELSE {})
  \cup (IF ~ RegistryOk(S) THEN V({"C09"}, "state: registry and data disagree") ELSE {})
  \cup (IF ~ OpenCountOk(S) \/ ~ OrphanOk(S) THEN V({"C11"}, "state: open queue count") ELSE {})
  \cup (IF ~ UniqueIds(S) THEN V({"C06"}, "state: duplicate ids") ELSE {})
  \cup (IF ~ OnceOk(S) THEN V({"C02"}, "state: a finished request is pending again or finished twice") ELSE {})
  \cup (IF ~ QueueStOk(S) THEN V({"C10"}, "state: neither unallocated, partly allocated nor live queue") ELSE {})
  \cup (IF ~ QueuesOk(S) THEN V({"C12"}, "state: malformed queue") ELSE {})

NSt == Len(States)
NSp == Len(Steps)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= NSp + NSt /\ pos' = pos + Chunks
Found(i) == IF i <= NSp THEN Check(Steps[i]) ELSE IF i <= NSp + NSt THEN StateBad(States[i - NSp]) ELSE {}
Report ==
  LET vs == Found(pos) IN
  \A v \in vs : PrintT("@@V " \o v.p \o " " \o (IF pos <= NSp THEN "step" ELSE "state") \o " "
                       \o ToString(IF pos <= NSp THEN pos ELSE pos - NSp) \o " " \o v.what)
=============================================================================
