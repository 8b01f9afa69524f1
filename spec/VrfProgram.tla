----------------------------- MODULE VrfProgram -----------------------------
(***************************************************************************)
(* The on-chain ephemeral-vrf program as a state machine.                  *)
(*                                                                         *)
(* A state S is a record                                                   *)
(*   slot  current slot                                                    *)
(*   auth  the program's upgrade authority ("none" if immutable)           *)
(*   reg   the oracle registry  [st, list, size]                           *)
(*   od    oracle name -> its data account [st, vk, reg, open]             *)
(*   q     queue name -> [st, own, size, idx, n, items]                    *)
(*         st "part": partly allocated; "live": initialised                *)
(*         own "vrf" or "dlp" (delegated, to no particular validator and   *)
(*         without scheduled commits)                                      *)
(*         items: pending requests, in order                               *)
(*   gone  programs that have been closed                                  *)
(*   bal   account name -> balance in units of 80 lamports (non-zero ones) *)
(*   seen  all request ids ever assigned;  done  the ids fulfilled/purged  *)
(*                                                                         *)
(* An event e is one instruction (or one step of the environment)          *)
(*   ix, acc (the account list with signer/writable flags, as the runtime  *)
(*   sees it), x (arguments), via (calling program, if any), b (builder).  *)
(*                                                                         *)
(* For every instruction the module states                                 *)
(*   Clauses(S,e)   the conditions, each labelled with the property it     *)
(*                  carries: "sec" conditions are necessary for the        *)
(*                  instruction to be accepted; all of them together with  *)
(*                  the "run" conditions (what a correct client supplies)  *)
(*                  are sufficient;                                        *)
(*   Effect(S,e,id) the state after acceptance;                            *)
(*   Calls(S,e)     the cross-program calls an acceptance makes.           *)
(* A rejected instruction changes nothing.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------ constants
TTL        == 240          \* requests older than this are purged
WaitSlots  == 200          \* between registration and the first queue
StepBytes  == 10240        \* allocation per instruction
FeeHigh    == 10000        \* 800,000 lamports
FeeRegular == 6250         \* 500,000 lamports
MaxMetas   == 20
MaxArgs    == 512
MaxDisc    == 8
ItemHead   == 96           \* fixed part of a stored request
MetaLen    == 33
FirstItem  == 16           \* where the first request is stored
OracleLen  == 56
RecLen     == 96
MetaRecLen == 200
RentMin(n) == (128 + n) * 87
RegLen(n)  == 12 + 32 * n

Wallets   == {"adm", "alice", "bob", "mallory", "o1", "o2", "o3", "o4", "adm2"}
Consumers == {"p1", "p2", "p3", "px", "pv"}       \* accept their callbacks
\* the program written with the SDK knows one callback
AnchorCallback == "090807"
CallbackOk(S, it) ==
  /\ \A i \in DOMAIN S.gone : S.gone[i] # it.prog
  /\ it.prog \in Consumers \/ (it.prog = "pa" /\ it.disc = AnchorCallback)
EphemeralQueue == "eq"

OdOf(o)    == "od:" \o o
QOf(o, i)  == "q:" \o o \o ":" \o ToString(i)
IdOf(p)    == "id:" \o p
FeeOf(p)   == IF p = 1 THEN FeeHigh ELSE FeeRegular
Max2(a, b) == IF a > b THEN a ELSE b
Sat(a, b)  == IF a > b THEN a - b ELSE 0
Align8(n)  == ((n + 7) \div 8) * 8

\* ------------------------------------------------------------ helpers
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [y \in (DOMAIN f) \cup {k} |-> IF y = k THEN v ELSE f[y]]
Del(f, k)    == [y \in (DOMAIN f) \ {k} |-> f[y]]
Bal(S, k)    == Get(S.bal, k, 0)
SetB(b, k, v) == IF v = 0 THEN Del(b, k) ELSE Put(b, k, v)
Move(b, from, to, n) ==
  IF n = 0 \/ from = to THEN b
  ELSE LET b1 == SetB(b, from, Get(b, from, 0) - n)
       IN  SetB(b1, to, Get(b1, to, 0) + n)
\* make account k hold exactly n, payer covering or receiving the difference
Level(b, payer, k, n) ==
  IF Get(b, k, 0) <= n THEN Move(b, payer, k, n - Get(b, k, 0))
                       ELSE Move(b, k, payer, Get(b, k, 0) - n)
\* make account k hold at least n
TopUp(b, payer, k, n) == Move(b, payer, k, Sat(n, Get(b, k, 0)))

Remove(seq, i) == [j \in 1..(Len(seq) - 1) |-> IF j < i THEN seq[j] ELSE seq[j + 1]]
Range(seq)     == {seq[i] : i \in DOMAIN seq}
SumFees(items) ==
  LET F[i \in 0..Len(items)] == IF i = 0 THEN 0 ELSE F[i - 1] + FeeOf(items[i].prio)
  IN  F[Len(items)]
Filter(seq, Keep(_)) ==
  LET F[i \in 0..Len(seq)] ==
        IF i = 0 THEN <<>> ELSE IF Keep(seq[i]) THEN Append(F[i - 1], seq[i]) ELSE F[i - 1]
  IN  F[Len(seq)]

HasQ(S, q)  == q \in DOMAIN S.q
Live(S, q)  == HasQ(S, q) /\ S.q[q].st = "live"
OpenQ(S, q) == Live(S, q) /\ S.q[q].own = "vrf"
HasOd(S, o) == o \in DOMAIN S.od /\ S.od[o].st = "live"
IndexOf(items, id) ==
  IF \E i \in DOMAIN items : items[i].id = id
  THEN CHOOSE i \in DOMAIN items : items[i].id = id /\ \A j \in 1..(i - 1) : items[j].id # id
  ELSE 0

\* ------------------------------------------------------------ accounts of an event
N(e)    == Len(e.acc)
K(e, i) == e.acc[i].k
Sg(e, i) == e.acc[i].s
Wr(e, i) == e.acc[i].w
SignsAs(e, k) == \E i \in 1..N(e) : K(e, i) = k /\ Sg(e, i)

\* the payer of a deposit or fee of n units
CanPay(S, e, i, n) ==
  /\ K(e, i) \in Wallets /\ Sg(e, i) /\ Wr(e, i)
  /\ Bal(S, K(e, i)) >= n
  /\ Bal(S, K(e, i)) - n = 0 \/ Bal(S, K(e, i)) - n >= RentMin(0)

Sec(name, props, ok) == [c |-> name, kind |-> "sec", p |-> props, ok |-> ok]
Run(name, ok)        == [c |-> name, kind |-> "run", p |-> {}, ok |-> ok]
Arity(e, n)          == Run("exactly the accounts", N(e) = n)

\* which property forbids touching queue q in its present condition
QueueProps(S, q, base) ==
  IF HasQ(S, q) /\ S.q[q].own = "dlp" THEN base \cup {"C13"}
  ELSE IF HasQ(S, q) /\ S.q[q].st = "part" THEN base \cup {"C10"}
  ELSE base

\* ============================================================ initialize
InitClauses(S, e) ==
  { Arity(e, 3),
    Sec("payer signs", {"C07"}, Sg(e, 1)),
    Sec("registry not created yet", {"C09"}, S.reg.st = "none"),
    Sec("registry address", {"C09"}, K(e, 2) = "oracles"),
    Run("registry writable", Wr(e, 2)),
    Run("system program", K(e, 3) = "sys"),
    Run("payer can pay", CanPay(S, e, 1, Sat(RentMin(RegLen(0)), Bal(S, "oracles")))) }
InitEffect(S, e) ==
  [S EXCEPT !.reg = [st |-> "live", list |-> <<>>, size |-> RegLen(0)],
            !.bal = TopUp(S.bal, K(e, 1), "oracles", RentMin(RegLen(0)))]

\* ============================================================ modify oracles
Crowd == {"w" \o ToString(i) : i \in 0..299}
ValidIdentity(id) == id \in Wallets \cup Crowd
ModifyNeed(S, e) ==
  LET id == e.x.id
      n  == Len(S.reg.list)
  IN  IF e.x.op = 0
      THEN Sat(RentMin(OracleLen), Bal(S, OdOf(id))) + Sat(RentMin(RegLen(n + 1)), Bal(S, "oracles"))
      ELSE 0
ModifyClauses(S, e) ==
  LET id == e.x.id IN
  { Arity(e, 5),
    Sec("signed by the upgrade authority", {"C09"}, Sg(e, 1) /\ S.auth # "none" /\ K(e, 1) = S.auth),
    Sec("registry", {"C09"}, K(e, 2) = "oracles" /\ S.reg.st = "live"),
    Sec("oracle data address", {"C09"}, K(e, 3) = OdOf(id)),
    Sec("valid identity", {"C09"}, ValidIdentity(id)),
    Sec("known operation", {"C09", "C19"}, e.x.op \in {0, 1}),
    Sec("not registered yet", {"C09"}, e.x.op = 0 => id \notin DOMAIN S.od),
    Sec("registered", {"C09"}, e.x.op = 1 => HasOd(S, id)),
    Sec("no open queue", {"C11"}, (e.x.op = 1 /\ HasOd(S, id)) => S.od[id].open = 0),
    Run("program data", K(e, 4) = "pd"),
    Run("writable", Wr(e, 2) /\ Wr(e, 3)),
    Run("system program", K(e, 5) = "sys"),
    Run("size", Len(S.reg.list) < 200),
    Run("payer can pay", CanPay(S, e, 1, ModifyNeed(S, e))) }
ModifyEffect(S, e) ==
  LET id   == e.x.id
      who  == K(e, 1)
      l    == S.reg.list
      keep(o) == o # id
      l2   == IF e.x.op = 0 THEN Append(l, id) ELSE Filter(l, keep)
      b1   == IF e.x.op = 0 THEN TopUp(S.bal, who, OdOf(id), RentMin(OracleLen))
                            ELSE Move(S.bal, OdOf(id), who, Bal(S, OdOf(id)))
      od2  == IF e.x.op = 0
              THEN Put(S.od, id, [st |-> "live", vk |-> e.x.vk, reg |-> S.slot, open |-> 0])
              ELSE Del(S.od, id)
  IN  [S EXCEPT !.reg = [st |-> "live", list |-> l2, size |-> RegLen(Len(l2))],
                !.od  = od2,
                !.bal = Level(b1, who, "oracles", RentMin(RegLen(Len(l2))))]

\* ============================================================ initialise a queue
InitqPartial(S, e) ==
  LET q  == QOf(K(e, 2), e.x.idx)
      s0 == IF HasQ(S, q) THEN S.q[q].size ELSE 0
  IN  e.x.size - s0 > StepBytes
InitqNewSize(S, e) ==
  LET q  == QOf(K(e, 2), e.x.idx)
      s0 == IF HasQ(S, q) THEN S.q[q].size ELSE 0
  IN  IF InitqPartial(S, e) THEN s0 + StepBytes ELSE e.x.size
InitqClauses(S, e) ==
  LET o == K(e, 2)
      q == QOf(o, e.x.idx)
      need == Sat(RentMin(InitqNewSize(S, e)), Bal(S, q))
  IN
  { Arity(e, 5),
    Sec("payer signs", {"C10"}, Sg(e, 1)),
    Sec("oracle signs", {"C10"}, Sg(e, 2)),
    Sec("oracle is registered", {"C10"}, K(e, 3) = OdOf(o) /\ HasOd(S, o)),
    Sec("queue address", {"C10"}, K(e, 4) = q),
    Sec("queue not live, not delegated", QueueProps(S, q, {"C10"}),
        HasQ(S, q) => (S.q[q].st = "part" /\ S.q[q].own = "vrf")),
    Sec("200 slots since registration", {"C10"},
        HasOd(S, o) => S.slot - S.od[o].reg >= WaitSlots),
    Run("queue writable", Wr(e, 4)),
    Run("oracle data writable", InitqPartial(S, e) \/ Wr(e, 3)),
    Run("room for the header", e.x.size >= 20),
    Run("size not shrinking", HasQ(S, q) => e.x.size >= S.q[q].size),
    Run("system program", K(e, 5) = "sys"),
    Run("payer can pay", CanPay(S, e, 1, need)) }
InitqEffect(S, e) ==
  LET o  == K(e, 2)
      q  == QOf(o, e.x.idx)
      sz == InitqNewSize(S, e)
      b2 == IF HasQ(S, q) THEN Level(S.bal, K(e, 1), q, RentMin(sz))
                          ELSE TopUp(S.bal, K(e, 1), q, RentMin(sz))
  IN  IF InitqPartial(S, e)
      THEN [S EXCEPT !.q = Put(S.q, q, [st |-> "part", own |-> "vrf", size |-> sz, idx |-> 0, n |-> 0,
                                        items |-> <<>>]),
                     !.bal = b2]
      ELSE [S EXCEPT !.q = Put(S.q, q, [st |-> "live", own |-> "vrf", size |-> sz, idx |-> e.x.idx,
                                        n |-> 0, items |-> <<>>]),
                     !.od[o].open = S.od[o].open + 1,
                     !.bal = b2]

\* ============================================================ request randomness
HexLen(s) == Len(s) \div 2
ItemLen(x) == ItemHead + HexLen(x.disc) + MetaLen * Len(x.metas) + HexLen(x.args)
TailOf(items) ==
  IF items = <<>> THEN FirstItem ELSE Align8(items[Len(items)].end)
PhysicalUse(items) ==
  LET F[i \in 0..Len(items)] == IF i = 0 THEN 0 ELSE F[i - 1] + (items[i].end - items[i].off)
  IN  F[Len(items)]
FeeDue(q, prio) == IF q = EphemeralQueue THEN 0 ELSE FeeOf(prio)
RequestClauses(S, e) ==
  LET q == K(e, 3)
      x == e.x
      fee == FeeDue(q, x.prio)
  IN
  { Arity(e, 5),
    Sec("payer signs", {"C04"}, Sg(e, 1)),
    Sec("identity of the callback program signs", {"C04"},
        K(e, 2) = IdOf(x.prog) /\ Sg(e, 2) /\ \A i \in DOMAIN S.gone : S.gone[i] # e.via),
    Sec("initialised, undelegated queue", QueueProps(S, q, {"C04"}), OpenQ(S, q)),
    Sec("limits", {"C04"}, Len(x.metas) <= MaxMetas /\ HexLen(x.args) <= MaxArgs /\ HexLen(x.disc) <= MaxDisc),
    Sec("not more than the queue can hold", {"C04"},
        OpenQ(S, q) => PhysicalUse(S.q[q].items) + ItemLen(x) <= S.q[q].size - 8 - FirstItem),
    Sec("the real slot hashes", {"C06"}, K(e, 5) = "sh"),
    Sec("fee can be paid", {"C07"}, fee > 0 => Bal(S, K(e, 1)) >= fee),
    Run("fits behind the last request",
        OpenQ(S, q) => TailOf(S.q[q].items) + ItemLen(x) <= S.q[q].size - 8),
    Run("queue writable", Wr(e, 3)),
    Run("system program", K(e, 4) = "sys"),
    Run("payer can pay", fee = 0 \/ CanPay(S, e, 1, fee)) }
NewItem(S, e, id) ==
  LET x == e.x
      off == TailOf(S.q[K(e, 3)].items)
  IN  [id |-> id, slot |-> S.slot, prio |-> x.prio, prog |-> x.prog, disc |-> x.disc,
       metas |-> [i \in 1..Len(x.metas) |-> [k |-> x.metas[i].k, w |-> x.metas[i].w]],
       args |-> x.args, off |-> off, end |-> off + ItemLen(x)]
RequestEffect(S, e, id) ==
  LET q == K(e, 3) IN
  [S EXCEPT !.q[q].items = Append(S.q[q].items, NewItem(S, e, id)),
            !.q[q].n = S.q[q].n + 1,
            !.bal = Move(S.bal, K(e, 1), q, FeeDue(q, e.x.prio)),
            !.seen = Append(S.seen, id)]

\* ============================================================ provide randomness
ProofOk(S, o, x) ==
  /\ HasOd(S, o) /\ x.by = S.od[o].vk /\ x.by # "v:bad"
  /\ x.over = x.input /\ x.tam = "none"
\* the account list the callback program sees
CallMetas(item) ==
  LET raw  == <<[k |-> "vrfid", s |-> TRUE, w |-> FALSE]>>
                \o [i \in 1..Len(item.metas) |-> [k |-> item.metas[i].k, s |-> FALSE, w |-> item.metas[i].w]]
  IN  [i \in 1..Len(raw) |->
        [k |-> raw[i].k,
         s |-> \E j \in 1..Len(raw) : raw[j].k = raw[i].k /\ raw[j].s,
         w |-> \E j \in 1..Len(raw) : raw[j].k = raw[i].k /\ raw[j].w]]
Pending(S, q, id) == OpenQ(S, q) /\ IndexOf(S.q[q].items, id) # 0
ItemOf(S, q, id)  == S.q[q].items[IndexOf(S.q[q].items, id)]
ProvideClauses(S, e) ==
  LET o == K(e, 1)
      q == K(e, 4)
      p == Pending(S, q, e.x.input)
      have == {e.acc[i].k : i \in {2, 5} \cup (6..N(e))}
      havew == {e.acc[i].k : i \in {j \in 1..N(e) : e.acc[j].w}}
  IN
  { Sec("oracle signs", {"C01"}, Sg(e, 1)),
    Sec("data of that oracle", {"C01"}, K(e, 3) = OdOf(o) /\ HasOd(S, o)),
    Sec("a queue of that oracle", QueueProps(S, q, {"C01"}),
        OpenQ(S, q) /\ q # EphemeralQueue /\ q = QOf(o, S.q[q].idx)),
    Sec("request is pending", {"C01", "C02"}, p),
    Sec("proof for this id under the registered key", {"C01"}, ProofOk(S, o, e.x)),
    Sec("later slot", {"C05"}, p => S.slot > ItemOf(S, q, e.x.input).slot),
    Sec("program of the request", {"C03"}, p => K(e, 5) = ItemOf(S, q, e.x.input).prog),
    Sec("oracle is not among the callback's accounts", {"C03"},
        p => \A m \in Range(ItemOf(S, q, e.x.input).metas) : m.k # o),
    Sec("identity of the VRF program", {"C03"}, K(e, 2) = "vrfid"),
    Sec("callback succeeds", {"C03"}, p => CallbackOk(S, ItemOf(S, q, e.x.input))),
    Run("accounts of the callback",
        p => \A m \in Range(ItemOf(S, q, e.x.input).metas) : m.k \in have /\ (m.w => m.k \in havew)),
    Run("no evil callback", p => ItemOf(S, q, e.x.input).prog # "px"),
    Run("writable", Wr(e, 1) /\ Wr(e, 4)) }
ProvideEffect(S, e) ==
  LET q == K(e, 4)
      i == IndexOf(S.q[q].items, e.x.input)
      it == S.q[q].items[i]
  IN  [S EXCEPT !.q[q].items = Remove(S.q[q].items, i),
                !.q[q].n = S.q[q].n - 1,
                !.bal = Move(S.bal, q, K(e, 1), FeeDue(q, it.prio)),
                !.done = Append(S.done, it.id)]
ProvideCalls(S, e) ==
  LET it == ItemOf(S, K(e, 4), e.x.input)
  IN  <<[prog |-> it.prog, acc |-> CallMetas(it), data |-> it.disc \o e.x.outh \o it.args]>>

\* ============================================================ purge
Expired(S, it) == Sat(S.slot, it.slot) > TTL
PurgeClauses(S, e) ==
  LET o == K(e, 1)
      q == QOf(o, e.x.idx)
  IN
  { Arity(e, 2),
    Sec("that oracle's queue", {"C08"}, K(e, 2) = q),
    Sec("initialised, undelegated queue", QueueProps(S, q, {"C08"}), OpenQ(S, q)),
    Run("writable", Wr(e, 1) /\ Wr(e, 2)) }
PurgeEffect(S, e) ==
  LET q == K(e, 2)
      its == S.q[q].items
      dead(it) == Expired(S, it)
      alive(it) == ~ Expired(S, it)
      gone == Filter(its, dead)
      kept == Filter(its, alive)
      F[i \in 0..Len(gone)] == IF i = 0 THEN S.done ELSE Append(F[i - 1], gone[i].id)
  IN  [S EXCEPT !.q[q].items = kept, !.q[q].n = Len(kept),
                !.bal = Move(S.bal, q, K(e, 1), SumFees(gone)),
                !.done = F[Len(gone)]]

\* ============================================================ close a queue
CloseClauses(S, e) ==
  LET o == K(e, 1)
      q == QOf(o, e.x.idx)
  IN
  { Arity(e, 3),
    Sec("oracle signs", {"C11"}, Sg(e, 1)),
    Sec("data of that oracle", {"C11"}, K(e, 2) = OdOf(o) /\ HasOd(S, o)),
    Sec("that oracle's queue", {"C11"}, K(e, 3) = q),
    Sec("initialised, undelegated queue", QueueProps(S, q, {"C11"}), OpenQ(S, q)),
    Sec("no pending request", {"C11"}, OpenQ(S, q) => S.q[q].items = <<>>),
    Run("writable", Wr(e, 1) /\ Wr(e, 2) /\ Wr(e, 3)) }
CloseEffect(S, e) ==
  LET o == K(e, 1)
      q == K(e, 3)
  IN  [S EXCEPT !.q = Del(S.q, q), !.od[o].open = S.od[o].open - 1,
                !.bal = Move(S.bal, q, o, Bal(S, q))]

\* ============================================================ delegate / undelegate
DelegateRent == RentMin(RecLen) + RentMin(MetaRecLen)
DelegateClauses(S, e) ==
  LET o == K(e, 1)
      q == QOf(o, e.x.idx)
      buf == IF HasQ(S, q) THEN RentMin(S.q[q].size) ELSE 0
  IN
  { Arity(e, 8),
    Sec("owner of the queue signs", {"C13"}, Sg(e, 1)),
    Sec("that owner's queue", {"C13"}, K(e, 2) = q),
    Sec("not delegated", {"C13"}, HasQ(S, q) => S.q[q].own = "vrf"),
    Sec("owner program is this program", {"C13"}, K(e, 7) = "vrf"),
    Run("live queue", OpenQ(S, q)),
    Run("buffer can be allocated in one step", OpenQ(S, q) => S.q[q].size <= StepBytes),
    Run("delegation accounts", K(e, 3) = "buf:" \o q /\ K(e, 4) = "rec:" \o q /\ K(e, 5) = "meta:" \o q
                               /\ K(e, 6) = "dlp" /\ K(e, 8) = "sys"),
    Run("fresh delegation accounts", Bal(S, "buf:" \o q) = 0 /\ Bal(S, "rec:" \o q) = 0 /\ Bal(S, "meta:" \o q) = 0),
    Run("writable", Wr(e, 2) /\ Wr(e, 3) /\ Wr(e, 4) /\ Wr(e, 5)),
    Run("payer can pay", CanPay(S, e, 1, DelegateRent + buf)) }
DelegateEffect(S, e) ==
  LET o == K(e, 1)
      q == K(e, 2)
      b1 == TopUp(S.bal, o, "rec:" \o q, RentMin(RecLen))
      b2 == TopUp(b1, o, "meta:" \o q, RentMin(MetaRecLen))
      b3 == Move(b2, "buf:" \o q, o, Get(b2, "buf:" \o q, 0))
  IN  [S EXCEPT !.q[q].own = "dlp", !.bal = b3]

\* the request to the ephemeral validator to commit and undelegate
UndelegateClauses(S, e) ==
  LET o == K(e, 1)
      q == QOf(o, e.x.idx)
  IN
  { Arity(e, 4),
    Sec("owner of the queue signs", {"C13"}, Sg(e, 1)),
    Sec("that owner's queue", {"C13"}, K(e, 2) = q),
    Sec("magic program", {"C13"}, K(e, 3) = "mctx" /\ K(e, 4) = "magic"),
    Run("writable", Wr(e, 1) /\ Wr(e, 2) /\ Wr(e, 3)) }
UndelegateCalls(S, e) ==
  <<[prog |-> "magic",
     acc |-> <<[k |-> K(e, 1), s |-> TRUE, w |-> TRUE], [k |-> "mctx", s |-> FALSE, w |-> TRUE],
               [k |-> K(e, 2), s |-> FALSE, w |-> TRUE]>>,
     data |-> "02000000"]>>

\* the delegation program hands the queue back
DlpbackClauses(S, e) ==
  { Sec("delegated queue", {"C13"}, HasQ(S, e.x.q) /\ S.q[e.x.q].own = "dlp"),
    Run("payer", Bal(S, e.x.payer) >= 50000000 /\ e.x.payer \in Wallets) }
DlpbackEffect(S, e) ==
  LET q == e.x.q
      b1 == Move(S.bal, "rec:" \o q, e.x.payer, Bal(S, "rec:" \o q))
      b2 == Move(b1, "meta:" \o q, e.x.payer, Get(b1, "meta:" \o q, 0))
  IN  [S EXCEPT !.q[q].own = "vrf", !.bal = b2]

\* lamports sent along in a transaction
TransferClauses(S, e) ==
  { Run("payer can pay", CanPay(S, e, 1, e.x.n)),
    Run("enough to exist", Bal(S, K(e, 2)) + e.x.n >= RentMin(0)),
    Run("writable", Wr(e, 2)) }
TransferEffect(S, e) == [S EXCEPT !.bal = Move(S.bal, K(e, 1), K(e, 2), e.x.n)]

\* direct calls of the hand-back instruction never succeed
PundClauses(S, e) == { Sec("only the delegation program hands back", {"C13"}, FALSE) }

\* malformed instructions never succeed
RawClauses(S, e) == { Sec("valid encoding", {"C19"}, FALSE) }

\* ============================================================ dispatch
MinAcc(ix) ==
  CASE ix = "init" -> 3 [] ix = "modify" -> 5 [] ix = "initq" -> 5 [] ix = "request" -> 5
    [] ix = "provide" -> 5 [] ix = "purge" -> 2 [] ix = "close" -> 3 [] ix = "delegate" -> 8
    [] ix = "undelegate" -> 4 [] ix = "transfer" -> 2 [] OTHER -> 0
Clauses(S, e) ==
  IF e.ix \notin {"raw", "pund", "dlpback"} /\ N(e) < MinAcc(e.ix)
  THEN { Sec("all accounts given", {"C19"}, FALSE) }
  ELSE CASE e.ix = "init"       -> InitClauses(S, e)
         [] e.ix = "modify"     -> ModifyClauses(S, e)
         [] e.ix = "initq"      -> InitqClauses(S, e)
         [] e.ix = "request"    -> RequestClauses(S, e)
         [] e.ix = "provide"    -> ProvideClauses(S, e)
         [] e.ix = "purge"      -> PurgeClauses(S, e)
         [] e.ix = "close"      -> CloseClauses(S, e)
         [] e.ix = "delegate"   -> DelegateClauses(S, e)
         [] e.ix = "undelegate" -> UndelegateClauses(S, e)
         [] e.ix = "dlpback"    -> DlpbackClauses(S, e)
         [] e.ix = "transfer"   -> TransferClauses(S, e)
         [] e.ix = "pund"       -> PundClauses(S, e)
         [] e.ix = "raw"        -> RawClauses(S, e)
Forbidden(S, e) == {c \in Clauses(S, e) : c.kind = "sec" /\ ~ c.ok}
MustAccept(S, e) == \A c \in Clauses(S, e) : c.ok
MayAccept(S, e)  == Forbidden(S, e) = {}

Effect(S, e, id) ==
  CASE e.ix = "init"       -> InitEffect(S, e)
    [] e.ix = "modify"     -> ModifyEffect(S, e)
    [] e.ix = "initq"      -> InitqEffect(S, e)
    [] e.ix = "request"    -> RequestEffect(S, e, id)
    [] e.ix = "provide"    -> ProvideEffect(S, e)
    [] e.ix = "purge"      -> PurgeEffect(S, e)
    [] e.ix = "close"      -> CloseEffect(S, e)
    [] e.ix = "delegate"   -> DelegateEffect(S, e)
    [] e.ix = "undelegate" -> S
    [] e.ix = "dlpback"    -> DlpbackEffect(S, e)
    [] e.ix = "transfer"   -> TransferEffect(S, e)
    [] OTHER -> S
Calls(S, e) ==
  CASE e.ix = "provide"    -> ProvideCalls(S, e)
    [] e.ix = "undelegate" -> UndelegateCalls(S, e)
    [] OTHER -> <<>>

\* ============================================================ transactions of several instructions
\* es[i] assigns the id ids[i] if it is a request.  The result: the first instruction that must
\* (may) not be accepted, 0 if there is none; the state before it, or at the end; the calls made.
RECURSIVE RunTx(_, _, _, _, _, _)
RunTx(S, es, ids, must, i, calls) ==
  IF i > Len(es) THEN [bad |-> 0, S |-> S, calls |-> calls]
  ELSE IF ~ must /\ es[i].ix = "delegate" /\ Len(es[i].acc) = 8 /\ ~ HasQ(S, K(es[i], 2))
       THEN [bad |-> -1, S |-> S, calls |-> calls]     \* of an account that holds nothing: not modelled
  ELSE IF (IF must THEN MustAccept(S, es[i]) ELSE MayAccept(S, es[i]))
       THEN RunTx(Effect(S, es[i], ids[i]), es, ids, must, i + 1, calls \o Calls(S, es[i]))
       ELSE [bad |-> i, S |-> S, calls |-> calls]
MustTx(S, es, ids) == RunTx(S, es, ids, TRUE, 1, <<>>)
MayTx(S, es, ids)  == RunTx(S, es, ids, FALSE, 1, <<>>)
NoIds(es) == [i \in 1..Len(es) |-> ""]
AllMust(S, es) == MustTx(S, es, NoIds(es)).bad = 0
AllMay(S, es)  == MayTx(S, es, NoIds(es)).bad = 0
Fold(S, es)    == MayTx(S, es, NoIds(es)).S
\* many requests that differ at most in the seed, one after the other
FillEffect(S, e, ids) ==
  LET q == K(e, 3)
      off == TailOf(S.q[q].items)
      len == ItemLen(e.x)
      first == NewItem(S, e, "")
      new == [j \in 1..Len(ids) |-> [first EXCEPT !.id = ids[j], !.off = off + (j - 1) * Align8(len),
                                                 !.end = off + (j - 1) * Align8(len) + len]]
  IN  [S EXCEPT !.q[q].items = S.q[q].items \o new, !.q[q].n = S.q[q].n + Len(ids),
                !.bal = Move(S.bal, K(e, 1), q, Len(ids) * FeeDue(q, e.x.prio)),
                !.seen = S.seen \o ids]
\* the instructions that create a queue of n bytes
StepsOf(n) == (n + StepBytes - 1) \div StepBytes
InitAll(e) == [i \in 1..StepsOf(e.x.size) |-> [e EXCEPT !.ix = "initq"]]

\* ============================================================ state properties
EscrowOk(S) ==
  \A q \in DOMAIN S.q :
    S.q[q].st = "live" => Bal(S, q) >= RentMin(S.q[q].size)
                           + (IF q = EphemeralQueue THEN 0 ELSE SumFees(S.q[q].items))
RegistryOk(S) ==
  /\ S.reg.st # "bad"
  /\ \A o \in DOMAIN S.od : S.od[o].st = "live"
  /\ Range(S.reg.list) = DOMAIN S.od
  /\ Cardinality(DOMAIN S.od) = Len(S.reg.list)
  /\ S.reg.st = "live" => S.reg.size = RegLen(Len(S.reg.list))
QueuesOf(S, o) == {q \in DOMAIN S.q : S.q[q].st = "live" /\ q = QOf(o, S.q[q].idx)}
OpenCountOk(S) ==
  \A o \in DOMAIN S.od : S.od[o].open = Cardinality(QueuesOf(S, o))
OrphanOk(S) ==    \* a live queue always belongs to a registered oracle
  \A q \in DOMAIN S.q : (S.q[q].st = "live" /\ q # EphemeralQueue) =>
     \E o \in DOMAIN S.od : q \in QueuesOf(S, o)
QueueStOk(S) ==
  \A q \in DOMAIN S.q : S.q[q].st # "bad" /\ (S.q[q].st = "part" => S.q[q].items = <<>>)
QueuesOk(S) ==
  \A q \in DOMAIN S.q :
    /\ S.q[q].n = Len(S.q[q].items)
    /\ \A i \in 1..Len(S.q[q].items) :
         /\ S.q[q].items[i].slot <= S.slot
         /\ S.q[q].items[i].end <= S.q[q].size - 8
         /\ i > 1 => S.q[q].items[i - 1].end <= S.q[q].items[i].off
AllPending(S) == UNION {{<<q, i>> : i \in 1..Len(S.q[q].items)} : q \in DOMAIN S.q}
PendingIds(S) == UNION {{S.q[q].items[i].id : i \in 1..Len(S.q[q].items)} : q \in DOMAIN S.q}
UniqueIds(S) ==
  /\ Cardinality(PendingIds(S)) = Cardinality(AllPending(S))
  /\ Cardinality(Range(S.seen)) = Len(S.seen)
OnceOk(S) ==      \* fulfilled or purged at most once, and then gone
  /\ Cardinality(Range(S.done)) = Len(S.done)
  /\ PendingIds(S) \cap Range(S.done) = {}
=============================================================================
