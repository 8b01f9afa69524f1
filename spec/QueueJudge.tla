----------------------------- MODULE QueueJudge -----------------------------
(* Validates recorded operations of the real queue storage.                *)
(* A state is what the public functions show:                              *)
(*   size, idx, n, empty, hdrn, hdre, hdri (Queue header of the account), items (from  *)
(*   iter_items), get (ids by position), find (id -> position)             *)
EXTENDS QueueStore, Json, IOUtils
States == ndJsonDeserialize(IOEnv.MBT_STATES)
Steps  == ndJsonDeserialize(IOEnv.MBT_STEPS)
Chunks == 8
ItemLen(x) == ItemHead + x.dl + MetaLen * x.ml + x.al
\* c: digest of slot, callback program, priority, discriminator, metas and arguments
Content(x) == [id |-> x.id, c |-> x.c, dl |-> x.dl, ml |-> x.ml, al |-> x.al]
List(S) == [i \in 1..Len(S.items) |-> Content(S.items[i])]
V(ok, what) == IF ok THEN {} ELSE {what}

StateBad(S) ==
  V(S.n = Len(S.items), "length") \cup V(S.hdrn = S.n, "length in the header")
  \cup V(S.hdre = S.empty /\ S.hdri = S.idx, "header view")
  \cup V(S.empty = (S.items = <<>>), "emptiness")
  \cup V(S.get = [i \in 1..Len(S.items) |-> S.items[i].id], "lookup by position")
  \cup V(\A id \in DOMAIN S.find : S.find[id] = FindId(S.items, id), "lookup by id")
  \cup V(\A i \in 1..Len(S.items) : S.items[i].off >= FirstItem /\ End(S.items[i]) <= S.size
            /\ S.items[i].len = ItemLen(S.items[i])
            /\ (i > 1 => End(S.items[i - 1]) <= S.items[i].off), "items overlap or leave the account")
Same(S, T) == List(S) = List(T) /\ S.size = T.size /\ S.idx = T.idx
Check(s) ==
  IF s.e.op = "fuzz" THEN V(s.r.st \in {"ok", "err"} /\ s.r.canary, "arbitrary bytes: " \o s.r.st)
  ELSE
  LET S == States[s.f]
      T == States[s.t]
      e == s.e
      r == s.r
  IN
  V(r.st # "panic", e.op \o " crashed") \cup V(r.canary, "write outside the account") \cup
  CASE e.op = "add" ->
       LET lim == e.x.ml <= MaxMetas /\ e.x.al <= MaxArgs
           fits == Fits(S.items, ItemLen(e.x), S.size)
       IN  IF lim /\ fits
           THEN V(r.st = "ok", "insertion that fits was refused") \cup
                V(r.st # "ok" \/ (List(T) = Append(List(S), Content(e.x)) /\ S.size = T.size /\ S.idx = T.idx),
                  "content after insertion")
                \cup V(r.st # "ok" \/ r.ret = Len(S.items), "position returned by insertion")
           ELSE V(r.st # "ok", "insertion accepted that " \o (IF lim THEN "does not fit" ELSE "exceeds the limits"))
                \cup V(r.st = "ok" \/ Same(S, T), "a refused insertion changed something")
    [] e.op = "fill" ->       \* as many of the insertions as fit
       LET n == Len(r.ret)
           more == [i \in 1..n |-> Content(e.xs[i])]
       IN  V(List(T) = List(S) \o more /\ S.size = T.size /\ S.idx = T.idx, "content after insertions")
           \cup V(r.ret = [i \in 1..n |-> Len(S.items) + i - 1], "position returned by insertion")
           \cup V(n = Len(e.xs) \/ r.st = "panic" \/ ~ Fits(T.items, ItemLen(e.xs[n + 1]), S.size), "insertion that fits was refused")
    [] e.op = "remove" ->
       IF e.n < Len(S.items)
       THEN V(r.st = "ok", "removal of a stored item was refused")
            \cup V(r.st # "ok" \/ (List(T) = Remove(List(S), e.n + 1) /\ S.size = T.size /\ S.idx = T.idx), "content after removal")
            \cup V(r.st # "ok" \/ Content(r.item) = List(S)[e.n + 1], "item returned by removal")
       ELSE V(r.st # "ok", "removal of a missing item") \cup V(Same(S, T), "a refused removal changed something")
    [] OTHER -> V(Same(S, T), "a reload changed something")
NSt == Len(States)
NSp == Len(Steps)
VARIABLE pos
Init == pos \in 1..Chunks
Next == pos + Chunks <= NSp + NSt /\ pos' = pos + Chunks
Report ==
  LET vs == IF pos <= NSp THEN Check(Steps[pos]) ELSE IF pos <= NSp + NSt THEN StateBad(States[pos - NSp]) ELSE {}
  IN \A v \in vs : PrintT("@@V C12 " \o (IF pos <= NSp THEN "step" ELSE "state") \o " "
                       \o ToString(IF pos <= NSp THEN pos ELSE pos - NSp) \o " " \o v)
=============================================================================
