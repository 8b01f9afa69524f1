------------------------------- MODULE MCCli -------------------------------
(* Operators run commands while users make requests; exports a path to     *)
(* every state reached, for replay with the real tool.                     *)
EXTENDS OracleCli, Json, IOUtils
Genesis == ndJsonDeserialize(IOEnv.MBT_GENESIS)[1]
MaxLen  == atoi(IOEnv.MBT_MAXLEN)
Scenario == IOEnv.MBT_SCENARIO     \* "setup": from nothing; "queues": two oracles with queues

C(cmd, who) == [cmd |-> cmd, who |-> who, id |-> "", vk |-> "", idx |-> 0, size |-> 0, q |-> ""]
CId(cmd, who, id, vk) == [C(cmd, who) EXCEPT !.id = id, !.vk = vk]
CInitq(who, id, i, n) == [C("initq", who) EXCEPT !.id = id, !.idx = i, !.size = n]
CQ(cmd, who, q) == [C(cmd, who) EXCEPT !.q = q]
Env(ix, x) == Ev(ix, <<>>, x)
Request(q) ==
  [Ev("request", <<A("alice", TRUE, TRUE), A("id:p1", TRUE, FALSE), A(q, FALSE, TRUE), A("sys", FALSE, FALSE), A("sh", FALSE, FALSE)>>,
      [seed |-> 1, prog |-> "p1", disc |-> "0102", metas |-> <<>>, args |-> "07", prio |-> 1]) EXCEPT !.via = "p1"]
Purge(o, i) == Ev("purge", <<A(o, FALSE, TRUE), A(QOf(o, i), FALSE, TRUE)>>, [idx |-> i])

Cmds ==
  << C("init", "adm"), C("init", "alice"),
     CId("add", "adm", "o1", "v:o1"), CId("add", "adm", "o2", "v:o2"), CId("add", "mallory", "mallory", "v:mallory"),
     CId("add", "adm", "o1", "v:o1b"),
     CId("remove", "adm", "o1", ""), CId("remove", "o1", "o1", ""), CId("remove", "adm", "o2", ""),
     CInitq("o1", "o1", 0, 0), CInitq("o1", "o1", 255, 20481), CInitq("o1", "o1", 1, 10240), CInitq("o2", "o2", 0, 10241),
     CInitq("alice", "o1", 0, 0), CInitq("o1", "o2", 0, 0), CInitq("o2", "o2", 255, 1000),
     CQ("delegate", "o1", "q:o1:0"), CQ("delegate", "o2", "q:o1:0"), CQ("delegate", "o2", "q:o2:255"), CQ("delegate", "o1", "q:o1:255"),
     CQ("undelegate", "o1", "q:o1:0"), CQ("undelegate", "o2", "q:o1:0"), CQ("undelegate", "o2", "q:o2:255"),
     CQ("close", "o1", "q:o1:0"), CQ("close", "o2", "q:o1:0"), CQ("close", "o1", "q:o2:0"), CQ("close", "o1", "q:o1:255"),
     CQ("close", "o2", "q:o2:255"), CQ("close", "o1", "q:o1:1"), CQ("close", "alice", "q:o1:0"),
     C("derive", "o1"), C("derive", "alice"), C("list", "o1"), C("list", "o2"), C("list", "alice") >>
Events ==
  << Env("slot", [n |-> 200]), Env("slot", [n |-> 241]), Env("auth", [k |-> "adm2"]),
     Request("q:o1:0"), Request("q:o1:255"), Purge("o1", 0), Purge("o1", 255),
     Env("dlpback", [q |-> "q:o1:0", payer |-> "alice"]) >>

EnvStep(S, e) ==
  CASE e.ix = "slot" -> [S EXCEPT !.slot = S.slot + e.x.n]
    [] e.ix = "auth" -> [S EXCEPT !.auth = e.x.k]
    [] e.ix = "request" -> IF MustAccept(S, e) THEN Effect(S, e, "r" \o ToString(Len(S.seen) + 1)) ELSE S
    [] OTHER -> IF MustAccept(S, e) THEN Effect(S, e, "") ELSE S

N1 == Len(Cmds)
\* indices: init, add o1, add o2, slot, initq o1 0, o1 255, o2 0
Prefix == IF Scenario = "queues" THEN <<1, 3, 4, N1 + 1, 10, 11, 13>> ELSE <<>>
Apply(S, i) == IF i <= N1 THEN AfterCmd(S, Cmds[i]) ELSE EnvStep(S, Events[i - N1])
RECURSIVE RunAll(_, _)
RunAll(S, p) == IF p = <<>> THEN S ELSE RunAll(Apply(S, Head(p)), Tail(p))

VARIABLES st, path
vars == <<st, path>>
Init == st = RunAll(Genesis, Prefix) /\ path = <<>>
Next ==
  /\ Len(path) < MaxLen
  /\ \/ \E i \in DOMAIN Cmds : st' = AfterCmd(st, Cmds[i]) /\ path' = Append(path, i)
     \/ \E i \in DOMAIN Events :
          LET e == Events[i] IN
          /\ e.ix = "slot" => st.slot + e.x.n <= Genesis.slot + 441
          /\ e.ix = "request" => Len(st.seen) < 2
          /\ st' = EnvStep(st, e) /\ path' = Append(path, N1 + i)
  /\ st' # st
View == <<st.slot, st.auth, st.reg, st.od, st.q, st.done, Len(st.seen), [k \in {y \in DOMAIN st.bal : y \notin Wallets} |-> st.bal[k]]>>

Fine == EscrowOk(st) /\ RegistryOk(st) /\ OpenCountOk(st) /\ OrphanOk(st) /\ QueueStOk(st) /\ QueuesOk(st) /\ UniqueIds(st) /\ OnceOk(st)
\* a command never leaves a half-made queue, and touches only what it names
Whole == \A q \in DOMAIN st.q : st.q[q].st = "live"
IsCmd == path'[Len(path')] <= N1
Named ==
  IsCmd =>
    LET c == Cmds[path'[Len(path')]] IN
    /\ \A k \in (DOMAIN st.bal) \cup (DOMAIN st'.bal) : Get(st.bal, k, 0) # Get(st'.bal, k, 0) => k \in Touches(c)
    /\ \A q \in (DOMAIN st.q) \cup (DOMAIN st'.q) :
         (q \notin DOMAIN st.q \/ q \notin DOMAIN st'.q \/ st.q[q] # st'.q[q]) => q \in Touches(c)
    /\ \A o \in (DOMAIN st.od) \cup (DOMAIN st'.od) :
         (o \notin DOMAIN st.od \/ o \notin DOMAIN st'.od \/ st.od[o] # st'.od[o]) => OdOf(o) \in Touches(c)
    /\ st.reg # st'.reg => "oracles" \in Touches(c)
NamedProp == [][Named]_vars
Export == PrintT("@@P " \o ToString(path))
ASSUME PrintT("@@A " \o ToJson([cmds |-> Cmds, events |-> Events, prefix |-> Prefix]))
=============================================================================
