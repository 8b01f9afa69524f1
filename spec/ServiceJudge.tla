---------------------------- MODULE ServiceJudge ----------------------------
(* Validates records of the real oracle service, driven against a          *)
(* simulated node, against OracleService as seen from outside.             *)
(* g: what an observer knows of the service                                *)
(*   must/may: own queue -> requests <<id, slot>> that the latest update of *)
(*     the queue shows (they differ while updates overlapped)              *)
(*   cnts: own queue -> lengths the latest update(s) had                   *)
(*   lift: <<queue, id>> of attempts that ended, or may have, since        *)
(*   sum, num: response slots; dim: queues where overlapping updates make  *)
(*     the mean ambiguous                                                  *)
(*   fh: <<queue, id>> -> blockhash of the attempt that failed last        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.MBT_STEPS)
TTL == 240
Svc == "o1"
Own == {"q:o1:0", "q:o1:255", "q:o1:2"}
Dishonest == {"", "pf", "pr", "px"}
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b
V(ok, p, what) == IF ok THEN {} ELSE {<<p, what>>}
Ids(S) == {x[1] : x \in S}

G0 == [must |-> [q \in {} |-> {}], may |-> [q \in {} |-> {}], cnts |-> [q \in {} |-> {}], lift |-> {},
       sum |-> [q \in Own |-> 0], num |-> [q \in Own |-> 0], dim |-> {}, fh |-> [x \in {} |-> 0], bad |-> {}]

Shown(r) == {v.q : v \in Range(r.views)} \cap Own
Of(r, q) == {i \in DOMAIN r.views : r.views[i].q = q}
Items(r, i) == Range(r.views[i].items)
Put(f, q, x) == [y \in DOMAIN f \cup {q} |-> IF y = q THEN x ELSE f[y]]
May(g, q) == IF q \in DOMAIN g.may THEN g.may[q] ELSE {}
Must(g, q) == IF q \in DOMAIN g.must THEN g.must[q] ELSE {}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})

\* ---- what an update does
See(g, r, q) ==
  LET all == {Items(r, i) : i \in Of(r, q)}
      must == {x \in UNION all : \A S \in all : x \in S}
      gone == {x \in May(g, q) : \A S \in all : x[1] \notin Ids(S)}
      lat == {<<x[1], Max(r.slot - x[2], 0)>> : x \in gone}
      clear == Must(g, q) = May(g, q) /\ Cardinality(Of(r, q)) = 1
      cnt == IF r.notified THEN gone ELSE {}
  IN  [g EXCEPT !.must = Put(@, q, must), !.may = Put(@, q, UNION all),
                !.cnts = Put(@, q, {r.views[i].n : i \in Of(r, q)}),
                !.lift = {x \in @ : x[1] # q},
                !.sum[q] = @ + (IF cnt = {} THEN 0 ELSE Sum(lat)), !.num[q] = @ + Cardinality(cnt),
                !.dim = IF clear THEN @ ELSE @ \cup {q}]
RECURSIVE SeeAll(_, _, _)
SeeAll(g, r, Q) == IF Q = {} THEN g ELSE LET q == CHOOSE q \in Q : TRUE IN SeeAll(See(g, r, q), r, Q \ {q})

\* ---- what an answer does
Old(g, q, now) == {x \in May(g, q) : now - x[2] > TTL}
Answered(g, r) ==
  LET l == IF r.ans \in {"bad", "confirmed"}
           THEN IF r.id = "" THEN {<<r.q, i>> : i \in Ids(Old(g, r.q, r.now))} ELSE {<<r.q, r.id>>} ELSE {}
      f == r.ans = "bad" /\ r.how \in {"err", "no", "failed"} /\ r.id # "" /\ ~r.hf
  IN  [g EXCEPT !.lift = @ \cup l,
                !.fh = IF f THEN Put(@, <<r.q, r.id>>, r.hash)
                       ELSE [x \in {x \in DOMAIN @ : x # <<r.q, r.id>>} |-> @[x]]]
Sent(g, r) == [g EXCEPT !.fh = [x \in {x \in DOMAIN @ : ~\E s \in Range(r.sends) : <<s.q, s.id>> = x} |-> @[x]]]

\* ---- judgements
\* h: before the record, g: after
Calls(r, q, i) == {k \in DOMAIN r.out : r.out[k].q = q /\ r.out[k].id = i}
Serving(g, r) ==
  V(r.done, "C21", "an update is never finished") \cup
  IF r.op # "wait" \/ ~r.done THEN {} ELSE
  UNION {
    LET left == {x \in Must(g, q) : <<q, x[1]>> \notin g.lift /\ Calls(r, q, x[1]) = {}}
    IN  V(left = {} \/ (Calls(r, q, "") # {} /\ \A x \in left : r.now - x[2] > TTL),
          "C21", "a pending request of the latest update is not being served")
    : q \in DOMAIN g.must}
Once(g, r) ==
  V(\A k \in DOMAIN r.out : r.out[k].id = "" \/ Calls(r, r.out[k].q, r.out[k].id) = {k},
    "C22", "two attempts for the same request at once")
  \cup V(\A q \in Own : Cardinality({k \in DOMAIN r.out : r.out[k].q = q}) <= Cardinality(May(g, q)),
    "C22", "more attempts than pending requests")
  \cup V(\A k \in DOMAIN r.out : r.out[k].id = "" \/ r.out[k].id \in Ids(May(g, r.out[k].q)),
    "C22", "an attempt goes on although the latest update shows that the request is gone")
Stats(g, r) ==
  IF ~r.done THEN {} ELSE
  V({x[1] : x \in Range(r.stats)} = DOMAIN g.cnts /\ \A x \in Range(r.stats) : x[1] \in DOMAIN g.cnts => x[2] \in g.cnts[x[1]],
    "C22", "published queue sizes are not those of the latest updates")
  \cup V(\A q \in Own \ g.dim : (\E x \in Range(r.avg) : x[1] = q) <=> g.num[q] > 0, "C22", "an average without responses or the opposite")
  \cup V(\A x \in Range(r.avg) : x[1] \in Own /\ (x[1] \in g.dim \/ Abs(x[2] * g.num[x[1]] - 1000 * g.sum[x[1]]) <= g.num[x[1]] + 1),
    "C22", "published average response time is not the mean")
SendBad(h, g, r, s) ==
  LET seen == May(h, s.q) \cup May(g, s.q) IN
  V(s.payer = Svc /\ s.nsig = 1 /\ s.sig, "C23", "not signed by the identity of the service (alone)")
  \cup V(s.hash > 0, "C23", "an unknown blockhash")
  \cup V(s.kind # "other", "C23", "a transaction that is neither a fulfilment nor a purge")
  \cup IF s.kind = "other" THEN {} ELSE
  V(s.q \in Own, "C23", "a transaction for a queue that is not the service's")
  \cup (IF s.kind = "provide" THEN
    V(\E x \in seen : x[1] = s.id, "C23", "fulfilment of a request that is not in the queue")
    \cup V(\A x \in seen : x[1] = s.id => s.hslot - x[2] <= TTL, "C23", "fulfilment of an expired request")
    \cup V(SubSeq(s.acc, 1, 4) = <<Svc, "vrfid", "od:" \o Svc, s.q>>, "C23", "accounts of a fulfilment")
    \cup V(s.before => /\ s.acc = <<Svc, "vrfid", "od:" \o Svc, s.q, s.prog>> \o s.metas
                       /\ {a \in Range(s.wr) : a \in Range(s.metas)} = Range(s.mw), "C23", "callback accounts of a fulfilment")
    \cup V((s.before /\ s.now > s.slot /\ s.prog \notin Dishonest) => (s.ok /\ ~s.after), "C23", "a fulfilment that the program would not accept")
    \cup V(<<s.q, s.id>> \in DOMAIN h.fh => s.hash > h.fh[<<s.q, s.id>>], "C23", "retried with the blockhash that failed")
  ELSE
    V(\E x \in seen : s.now - x[2] > TTL, "C23", "a purge of a queue without expired requests")
    \cup V(s.acc = <<Svc, s.q>> /\ s.q = "q:" \o Svc \o ":" \o ToString(s.idx), "C23", "accounts of a purge")
    \cup V(s.ok, "C23", "a purge that the program would not accept"))

Step(h, r) ==
  LET g == CASE r.op \in {"view", "race"} -> SeeAll(h, r, Shown(r))
             [] r.op = "answer" -> Answered(h, r)
             [] OTHER -> h
      \* an answer and the attempt that follows it are in one record
      bad == Serving(g, r) \cup Once(g, r) \cup Stats(g, r) \cup UNION {SendBad(IF r.op = "answer" THEN g ELSE h, g, r, s) : s \in Range(r.sends)}
  IN  [Sent(g, r) EXCEPT !.bad = bad]

VARIABLES pos, g
Init == pos \in {i \in DOMAIN Recs : Recs[i].op = "start"} /\ g = G0
Next == /\ pos + 1 \in DOMAIN Recs /\ Recs[pos + 1].t = Recs[pos].t /\ Recs[pos + 1].op # "start"
        /\ pos' = pos + 1 /\ g' = Step(g, Recs[pos + 1])
Report == \A v \in g.bad : PrintT("@@V " \o v[1] \o " " \o ToString(pos) \o " " \o v[2])
=============================================================================
