----------------------------- MODULE MCProgram -----------------------------
(***************************************************************************)
(* Bounded model of the program for TLC.  The initial state is the         *)
(* projection of the harness' genesis; the alphabet below is exported to   *)
(* the harness, which replays a path to every distinct state reached here  *)
(* on the real program and tries every event of the alphabet, and mutated  *)
(* ones, from it.                                                          *)
(***************************************************************************)
EXTENDS VrfProgram, Json, IOUtils

Genesis == ndJsonDeserialize(IOEnv.MBT_GENESIS)[1]
Scenario == IOEnv.MBT_SCENARIO          \* "requests" or "governance"
MaxReq   == atoi(IOEnv.MBT_MAXREQ)
MaxLen   == atoi(IOEnv.MBT_MAXLEN)

A(k, s, w) == [k |-> k, s |-> s, w |-> w]
Ev(ix, acc, x, o, b, via) == [ix |-> ix, acc |-> acc, x |-> x, o |-> o, b |-> b, via |-> via]
No == [none |-> 0]

EInit(who) == Ev("init", <<A(who, TRUE, TRUE), A("oracles", FALSE, TRUE), A("sys", FALSE, FALSE)>>, No,
                 [signer |-> who], "api", "")
EModify(who, id, vk, op) ==
  Ev("modify", <<A(who, TRUE, TRUE), A("oracles", FALSE, TRUE), A(OdOf(id), FALSE, TRUE), A("pd", FALSE, FALSE),
                 A("sys", FALSE, FALSE)>>, [id |-> id, vk |-> vk, op |-> op], [signer |-> who], "api", "")
EInitq(who, o, i, size) ==
  Ev("initq", <<A(who, TRUE, TRUE), A(o, TRUE, who = o), A(OdOf(o), FALSE, TRUE), A(QOf(o, i), FALSE, TRUE),
                A("sys", FALSE, FALSE)>>, [idx |-> i, size |-> size], [signer |-> who, oracle |-> o, step |-> 0], "api", "")
ERequest(who, p, q, seed, prio, disc, metas, args) ==
  Ev("request", <<A(who, TRUE, TRUE), A(IdOf(p), TRUE, FALSE), A(q, FALSE, TRUE), A("sys", FALSE, FALSE),
                  A("sh", FALSE, FALSE)>>,
     [seed |-> seed, prog |-> p, disc |-> disc, metas |-> metas, args |-> args, prio |-> prio],
     [payer |-> who, queue |-> q], "sdk", p)
EProvide(o, q, id, p, metas) ==
  Ev("provide", <<A(o, TRUE, TRUE), A("vrfid", FALSE, FALSE), A(OdOf(o), FALSE, FALSE), A(q, FALSE, TRUE),
                  A(p, FALSE, FALSE)>> \o metas,
     [input |-> id, by |-> "v:" \o o, over |-> id, tam |-> "none"],
     [oracle |-> o, queue |-> q, prog |-> p], "api", "")
EPurge(o, i) == Ev("purge", <<A(o, FALSE, TRUE), A(QOf(o, i), FALSE, TRUE)>>, [idx |-> i], [oracle |-> o], "api", "")
EClose(o, i) == Ev("close", <<A(o, TRUE, TRUE), A(OdOf(o), FALSE, TRUE), A(QOf(o, i), FALSE, TRUE)>>,
                   [idx |-> i], [oracle |-> o], "api", "")
EDelegate(o, i) ==
  LET q == QOf(o, i) IN
  Ev("delegate", <<A(o, TRUE, TRUE), A(q, FALSE, TRUE), A("buf:" \o q, FALSE, TRUE), A("rec:" \o q, FALSE, TRUE),
                   A("meta:" \o q, FALSE, TRUE), A("dlp", FALSE, FALSE), A("vrf", FALSE, FALSE), A("sys", FALSE, FALSE)>>,
     [idx |-> i], [oracle |-> o, queue |-> q], "api", "")
EUndelegate(o, i) ==
  Ev("undelegate", <<A(o, TRUE, TRUE), A(QOf(o, i), FALSE, TRUE), A("mctx", FALSE, TRUE), A("magic", FALSE, FALSE)>>,
     [idx |-> i], [oracle |-> o, queue |-> QOf(o, i)], "api", "")
Env(ix, x) == Ev(ix, <<>>, x, No, "", "")
ESlot(n)   == Env("slot", [n |-> n])
EFund(k, n) == Env("fund", [k |-> k, n |-> n])
EAuth(k)   == Env("auth", [k |-> k])
EBack(q)   == Env("dlpback", [q |-> q, payer |-> "alice"])
ECommit(q, n) == Env("ercommit", [q |-> q, n |-> n])

M(k, w) == [k |-> k, s |-> FALSE, w |-> w]
Acc1 == <<A("acc1", FALSE, TRUE)>>

\* ------------------------------------------------------------ scenarios
\* prefix events are executed before exploration starts
Prefix ==
  CASE Scenario = "requests" ->
       << EInit("adm"), EModify("adm", "o1", "v:o1", 0), EModify("adm", "o2", "v:o2", 0), ESlot(200),
          EInitq("alice", "o1", 0, 440), EInitq("o2", "o2", 0, 20480) , EInitq("o2", "o2", 0, 20480) >>
    [] OTHER -> << >>
Alphabet ==
  CASE Scenario = "requests" ->
       << ERequest("alice", "p1", "q:o1:0", 1, 0, "0102030405060708", <<M("acc1", TRUE)>>, "aabb"),
          ERequest("alice", "p2", "q:o1:0", 2, 1, "09", <<>>, "ffeeddccbbaa99"),
          ERequest("bob", "pf", "q:o1:0", 3, 0, "", <<M("acc2", FALSE)>>, ""),
          ERequest("alice", "p1", "q:o2:0", 4, 1, "0102030405060708", <<M("acc1", TRUE)>>, "01"),
          EProvide("o1", "q:o1:0", "r1", "p1", Acc1), EProvide("o1", "q:o1:0", "r1", "p2", <<>>),
          EProvide("o1", "q:o1:0", "r2", "p1", Acc1), EProvide("o1", "q:o1:0", "r2", "p2", <<>>),
          EProvide("o1", "q:o1:0", "r3", "p1", Acc1), EProvide("o1", "q:o1:0", "r3", "p2", <<>>),
          EProvide("o2", "q:o2:0", "r1", "p1", Acc1), EProvide("o2", "q:o2:0", "r2", "p1", Acc1),
          EProvide("o2", "q:o2:0", "r3", "p1", Acc1),
          EPurge("o1", 0), EPurge("o2", 0),
          ESlot(1), ESlot(240),
          EClose("o1", 0), EDelegate("o1", 0), EBack("q:o1:0"), ECommit("q:o1:0", 1),
          EModify("adm", "o1", "v:o1b", 1), EModify("adm", "o1", "v:o1b", 0) >>
    [] OTHER ->
       << EInit("alice"), EModify("adm", "o1", "v:o1", 0), EModify("adm", "o2", "v:o2", 0),
          EModify("adm", "o1", "v:o1", 1), EModify("adm2", "o2", "v:o2", 1), EModify("adm2", "o1", "v:o1b", 0),
          EAuth("adm2"), EAuth("none"),
          ESlot(199), ESlot(1),
          EInitq("o1", "o1", 0, 300), EInitq("alice", "o1", 1, 20000), EInitq("o2", "o2", 0, 10240),
          EClose("o1", 0), EClose("o1", 1),
          EDelegate("o1", 0), EUndelegate("o1", 0), EBack("q:o1:0"), EDelegate("o1", 1),
          ERequest("alice", "p1", "q:o1:0", 1, 1, "0102030405060708", <<M("acc1", TRUE)>>, "aabb"),
          ERequest("alice", "p1", "q:o1:1", 1, 1, "0102030405060708", <<M("acc1", TRUE)>>, "aabb"),
          EProvide("o1", "q:o1:0", "r1", "p1", Acc1),
          EPurge("o1", 1), EFund("q:o1:0", 5000), EFund("oracles", 3000), EFund("od:o1", 700) >>

\* ------------------------------------------------------------ transitions
EnvStep(S, e) ==
  CASE e.ix = "slot" -> [S EXCEPT !.slot = S.slot + e.x.n]
    [] e.ix = "fund" -> [S EXCEPT !.bal = SetB(S.bal, e.x.k, Bal(S, e.x.k) + e.x.n)]
    [] e.ix = "auth" -> [S EXCEPT !.auth = e.x.k]
    [] e.ix = "ercommit" ->
         LET q == e.x.q IN
         IF Live(S, q) /\ S.q[q].own = "dlp" /\ S.q[q].items # <<>>
            /\ S.q[q].items[1].slot < S.slot
         THEN [S EXCEPT !.q[q].items = Tail(S.q[q].items), !.q[q].n = S.q[q].n - 1,
                        !.done = Append(S.done, S.q[q].items[1].id)]
         ELSE S
    [] OTHER -> S
IsEnv(e) == e.ix \in {"slot", "fund", "auth", "ercommit"}
EnvBound(S, e) ==
  CASE e.ix = "slot" -> S.slot + e.x.n <= Genesis.slot + (IF Scenario = "requests" THEN 200 + 242 ELSE 200)
    [] e.ix = "fund" -> Bal(S, e.x.k) = 0 \/ (e.x.k \in DOMAIN S.q /\ Bal(S, e.x.k) = RentMin(S.q[e.x.k].size))
    [] e.ix = "auth" -> S.auth # e.x.k /\ S.auth # "none"
    [] OTHER -> TRUE
Apply(S, e) ==
  IF IsEnv(e) THEN EnvStep(S, e)
  ELSE IF MustAccept(S, e) THEN Effect(S, e, "r" \o ToString(Len(S.seen) + 1))
  ELSE S
RECURSIVE RunAll(_, _)
RunAll(S, es) == IF es = <<>> THEN S ELSE RunAll(Apply(S, Head(es)), Tail(es))

VARIABLES st, path
vars == <<st, path>>
Init == /\ st = RunAll(Genesis, Prefix)
        /\ path = <<>>
Next ==
  \E i \in DOMAIN Alphabet :
    LET e == Alphabet[i] IN
    /\ (IsEnv(e) => EnvBound(st, e))
    /\ (e.ix = "request" => Len(st.seen) < MaxReq)
    /\ Len(path) < MaxLen
    /\ st' = Apply(st, e)
    /\ st' # st
    /\ path' = Append(path, i)

\* balances of wallets only count what each has paid or received; they are checked step by step
View == <<st.slot, st.auth, st.reg, st.od, st.q, st.done, Len(st.seen),
          [k \in {y \in DOMAIN st.bal : y \notin Wallets} |-> st.bal[k]]>>

\* ------------------------------------------------------------ properties of the model
Escrow    == EscrowOk(st)                                     \* C07
Registry  == RegistryOk(st)                                   \* C09
OpenCount == OpenCountOk(st) /\ OrphanOk(st)                  \* C11
WellFormed == QueueStOk(st) /\ QueuesOk(st)                                    \* C12, C10
Unique    == UniqueIds(st)                                    \* C06
Once      == OnceOk(st)                                       \* C02
\* nobody holds more or less in total, up to rent and donations: lamports are conserved
Total(S) == LET F[X \in SUBSET DOMAIN S.bal] ==
                  IF X = {} THEN 0 ELSE LET k == CHOOSE k \in X : TRUE IN S.bal[k] + F[X \ {k}]
            IN  F[DOMAIN S.bal]
\* a request leaves its queue only by fulfilment, purge after 240 slots, or the rollup's commit
Leaves ==
  \A q \in DOMAIN st.q : \A i \in 1..Len(st.q[q].items) :
    LET id == st.q[q].items[i].id
        e  == Alphabet[path'[Len(path')]]
    IN  (q \notin DOMAIN st'.q \/ IndexOf(st'.q[q].items, id) = 0) =>
           \/ e.ix = "provide" /\ e.x.input = id /\ st.slot > st.q[q].items[i].slot
           \/ e.ix = "purge" /\ Expired(st, st.q[q].items[i])
           \/ e.ix = "ercommit"
LeavesProp == [][Leaves]_vars
\* the last requests keep their order and content
Stable ==
  \A q \in (DOMAIN st.q) \cap (DOMAIN st'.q) :
     \A i \in 1..Len(st'.q[q].items) :
        LET it == st'.q[q].items[i]
            j  == IndexOf(st.q[q].items, it.id)
        IN  (j # 0 /\ st.q[q].items[j] = it) \/ it.id \notin Range(st.seen)
StableProp == [][Stable]_vars
\* an oracle with an open queue is never removed, a live queue never re-initialised
Guarded ==
  /\ \A o \in DOMAIN st.od : (st.od[o].open > 0) => o \in DOMAIN st'.od /\ st'.od[o].vk = st.od[o].vk
                                                     /\ st'.od[o].reg = st.od[o].reg
  /\ \A q \in DOMAIN st.q : (st.q[q].st = "live" /\ st.q[q].items # <<>>) => q \in DOMAIN st'.q
GuardedProp == [][Guarded]_vars

Export == PrintT("@@P " \o ToString(path))
ASSUME PrintT("@@A " \o ToJson([alphabet |-> Alphabet, prefix |-> Prefix]))
=============================================================================
