----------------------------- MODULE OracleCli -----------------------------
(***************************************************************************)
(* The operator's command line tool.  A command c is a record              *)
(*   cmd   "init" "add" "remove" "initq" "delegate" "undelegate" "close"   *)
(*         "derive" "list"                                                 *)
(*   who   the wallet it is run with                                       *)
(*   id, vk, idx, size, q   its arguments (size 0: not given)              *)
(* Every modifying command is one transaction, signed by `who` alone,      *)
(* that executes Instrs(S, c) atomically; reading commands send nothing.   *)
(* A command may also carry                                                *)
(*   bad    one of its arguments is no key or no number (which one and how)*)
(*   flaky  the node does not answer queries of accounts                   *)
(*   fate   what becomes of its transaction after the preflight checks:    *)
(*          "slow" seen only later, "raced" it fails, "dropped" it is lost *)
(***************************************************************************)
EXTENDS VrfProgram

A(k, s, w) == [k |-> k, s |-> s, w |-> w]
Ev(ix, acc, x) == [ix |-> ix, acc |-> acc, x |-> x, o |-> [none |-> 0], b |-> "", via |-> ""]
NoX == [none |-> 0]
DefaultSize == 9500
SizeOf(c) == IF c.size = 0 THEN DefaultSize ELSE c.size
Reading == {"derive", "list"}

\* the wallet that signs signs wherever it occurs
Me(c, k, w) == A(k, k = c.who, w)
One(c) ==
  CASE c.cmd = "init" -> Ev("init", <<Me(c, c.who, TRUE), A("oracles", FALSE, TRUE), A("sys", FALSE, FALSE)>>, NoX)
    [] c.cmd \in {"add", "remove"} ->
         Ev("modify", <<Me(c, c.who, TRUE), A("oracles", FALSE, TRUE), A(OdOf(c.id), FALSE, TRUE), A("pd", FALSE, FALSE),
                        A("sys", FALSE, FALSE)>>,
            [id |-> c.id, vk |-> c.vk, op |-> IF c.cmd = "add" THEN 0 ELSE 1])
    [] c.cmd = "initq" ->
         Ev("initq", <<Me(c, c.who, TRUE), Me(c, c.id, c.who = c.id), A(OdOf(c.id), FALSE, TRUE), A(QOf(c.id, c.idx), FALSE, TRUE),
                       A("sys", FALSE, FALSE)>>, [idx |-> c.idx, size |-> SizeOf(c)])
    [] OTHER -> Ev("none", <<>>, NoX)
\* commands about an existing queue read its index from the chain
OnQueue(S, c) ==
  LET i == S.q[c.q].idx IN
  CASE c.cmd = "delegate" ->
         Ev("delegate", <<Me(c, c.who, TRUE), A(c.q, FALSE, TRUE), A("buf:" \o c.q, FALSE, TRUE), A("rec:" \o c.q, FALSE, TRUE),
                          A("meta:" \o c.q, FALSE, TRUE), A("dlp", FALSE, FALSE), A("vrf", FALSE, FALSE), A("sys", FALSE, FALSE)>>,
            [idx |-> i])
    [] c.cmd = "undelegate" ->
         Ev("undelegate", <<Me(c, c.who, TRUE), A(c.q, FALSE, TRUE), A("mctx", FALSE, TRUE), A("magic", FALSE, FALSE)>>, [idx |-> i])
    [] OTHER ->
         Ev("close", <<Me(c, c.who, TRUE), A(OdOf(c.who), FALSE, TRUE), A(c.q, FALSE, TRUE)>>, [idx |-> i])
Malformed(c) == "bad" \in DOMAIN c
\* something outside the tool may keep the command from being done
Hindered(c) == "flaky" \in DOMAIN c \/ ("fate" \in DOMAIN c /\ c.fate # "slow")
Instrs(S, c) ==
  CASE Malformed(c) -> <<>>
    [] c.cmd \in {"init", "add", "remove"} -> <<One(c)>>
    [] c.cmd = "initq" -> [i \in 1..StepsOf(SizeOf(c)) |-> One(c)]
    [] c.cmd \in {"delegate", "undelegate", "close"} -> IF Live(S, c.q) THEN <<OnQueue(S, c)>> ELSE <<>>
    [] OTHER -> <<>>

\* ---- the transaction
Works(S, c) == Instrs(S, c) # <<>> /\ AllMust(S, Instrs(S, c))
Possible(S, c) == Instrs(S, c) # <<>> /\ AllMay(S, Instrs(S, c))
AfterCmd(S, c) == IF Works(S, c) THEN Fold(S, Instrs(S, c)) ELSE S
CmdCalls(S, c) ==
  LET es == Instrs(S, c)
      F[i \in 0..Len(es)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Calls(S, es[i])
  IN  F[Len(es)]

\* ---- reading commands
\* every queue of the wallet, with the number of its requests and its custody
Rows(S, c) ==
  {[q |-> q, n |-> S.q[q].n, idx |-> S.q[q].idx, dlg |-> S.q[q].own # "vrf"] :
     q \in {y \in DOMAIN S.q : Live(S, y) /\ \E i \in {0, 1, 255} : y = QOf(c.who, i)}}

\* ---- what a command may change
\* the registry and the data of the oracle it names, the queue it names, its wallet
Touches(c) ==
  CASE c.cmd = "init" -> {"oracles", c.who}
    [] c.cmd \in {"add", "remove"} -> {"oracles", c.who, OdOf(c.id)}
    [] c.cmd = "initq" -> {c.who, OdOf(c.id), QOf(c.id, c.idx)}
    [] c.cmd \in {"delegate", "undelegate"} -> {c.who, c.q, "buf:" \o c.q, "rec:" \o c.q, "meta:" \o c.q}
    [] c.cmd = "close" -> {c.who, OdOf(c.who), c.q}
    [] OTHER -> {}
=============================================================================
