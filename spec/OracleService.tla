--------------------------- MODULE OracleService ---------------------------
(***************************************************************************)
(* The oracle service (vrf-oracle): two concurrent readers of queue views  *)
(* (notifications and the periodic refresh), one attempt task per request, *)
(* and the environment (requests arrive, transactions land, are dropped or *)
(* rolled back with their fork, RPC calls fail, attempts crash).           *)
(*                                                                         *)
(* Steps are the sections the code runs under its locks.  Kept = the       *)
(* design of the code: an update that shows a request starts an attempt    *)
(* unless one is running, deciding and starting in one section.  With Kept *)
(* = FALSE the spec is the original design (separate sections, a request   *)
(* once confirmed is never tried again): TLC then finds that requests are  *)
(* given up (finding D7) - see MCServiceOld.cfg.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids, MaxInst, Kept, Envs, Hist
\* Envs: bound on environment events (arrivals, landings, forks, crashes); Hist: keep the path

VARIABLES
  pend,      \* requests pending on chain
  stale,     \* the previous value of pend: views may lag behind
  known,     \* requests being served: id -> in the map
  handle,    \* id -> number of the attempt task, 0 if none
  inst,      \* attempt tasks: [id, st]
  proc,      \* reader -> [pc, view, todo, new]
  conf,      \* ids whose last attempt was confirmed
  env,       \* environment events left
  path       \* schedule that leads here (for replay; not part of the view)
vars == <<pend, stale, known, handle, inst, proc, conf, env, path>>
Readers == {"notify", "refresh"}

Idle == [pc |-> "idle", view |-> {}, todo |-> {}, new |-> 0]
Init == /\ pend = {} /\ stale = {} /\ known = {} /\ handle = [i \in Ids |-> 0] /\ inst = <<>>
        /\ proc = [r \in Readers |-> Idle] /\ conf = {} /\ env = Envs /\ path = <<>>

Running(k) == inst[k].st \in {"send", "confirm", "clean1", "clean2"}
Live(i) == {k \in DOMAIN inst : inst[k].id = i /\ Running(k)}
\* what the running attempt of a request is waiting for (0: none)
Log(e) == path' = IF Hist THEN Append(path, e) ELSE path
Quiet == path' = path

\* ---------------------------------------------------------- environment
Arrive(i) == /\ env > 0 /\ i \notin pend /\ env' = env - 1
             /\ stale' = pend /\ pend' = pend \cup {i} /\ Log(<<"arrive", i>>)
             /\ UNCHANGED <<known, handle, inst, proc, conf>>
\* a transaction of some attempt lands, or the request is purged by somebody
Land(i) == /\ env > 0 /\ i \in pend /\ env' = env - 1
           /\ stale' = pend /\ pend' = pend \ {i} /\ Log(<<"land", i>>)
           /\ UNCHANGED <<known, handle, inst, proc, conf>>

\* ---------------------------------------------------------- readers
Start(r, v, e) ==
  /\ proc[r].pc = "idle"
  /\ proc' = [proc EXCEPT ![r] = [pc |-> "gone", view |-> v, todo |-> {}, new |-> 0]]
  /\ Log(e)
  /\ UNCHANGED <<pend, stale, known, handle, inst, conf, env>>
Gone(r) ==
  /\ proc[r].pc = "gone"
  /\ LET g == known \ proc[r].view IN
     /\ known' = known \cap proc[r].view
     /\ inst' = [k \in DOMAIN inst |-> IF inst[k].id \in g /\ handle[inst[k].id] = k /\ Running(k)
                                       THEN [inst[k] EXCEPT !.st = "aborted"] ELSE inst[k]]
     /\ handle' = [i \in Ids |-> IF i \in g THEN 0 ELSE handle[i]]
     /\ conf' = conf \ g
  /\ proc' = [proc EXCEPT ![r].pc = "items", ![r].todo = proc[r].view]
  /\ Quiet /\ UNCHANGED <<pend, stale, env>>
Spawn(i) == Append(inst, [id |-> i, st |-> "send"])
Item(r, i) ==
  /\ proc[r].pc = "items" /\ i \in proc[r].todo /\ Len(inst) < MaxInst
  /\ LET free == IF Kept THEN i \notin known \/ handle[i] = 0 \/ ~Running(handle[i]) ELSE i \notin known
     IN  IF free
         THEN /\ known' = known \cup {i}
              /\ inst' = Spawn(i)
              /\ conf' = conf \ {i}
              /\ IF Kept
                 THEN /\ handle' = [handle EXCEPT ![i] = Len(inst) + 1]
                      /\ proc' = [proc EXCEPT ![r].todo = @ \ {i}]
                 ELSE /\ proc' = [proc EXCEPT ![r].pc = "handle", ![r].new = Len(inst) + 1, ![r].todo = @ \ {i}]
                      /\ UNCHANGED handle
         ELSE /\ proc' = [proc EXCEPT ![r].todo = @ \ {i}]
              /\ UNCHANGED <<known, handle, inst, conf>>
  /\ Quiet /\ UNCHANGED <<pend, stale, env>>
Handle(r) ==
  /\ proc[r].pc = "handle"
  /\ handle' = [handle EXCEPT ![inst[proc[r].new].id] = proc[r].new]
  /\ proc' = [proc EXCEPT ![r].pc = "items"]
  /\ Quiet /\ UNCHANGED <<pend, stale, known, inst, conf, env>>
End(r) ==
  /\ proc[r].pc = "items" /\ proc[r].todo = {}
  /\ proc' = [proc EXCEPT ![r] = Idle]
  /\ Quiet /\ UNCHANGED <<pend, stale, known, handle, inst, conf, env>>

\* ---------------------------------------------------------- attempts
Set(k, st) == inst' = [inst EXCEPT ![k].st = st]
SendOk(k)  == inst[k].st = "send" /\ Set(k, "confirm") /\ Log(<<"send-ok", inst[k].id>>) /\ UNCHANGED <<known, handle, conf>>
Fail(k)    == \* send error, confirmation error or negative: try again, or give this round up
  /\ inst[k].st \in {"send", "confirm"}
  /\ Set(k, "send") /\ Log(<<IF inst[k].st = "send" THEN "send-err" ELSE "confirm-no", inst[k].id>>)
  /\ UNCHANGED <<known, handle, conf>>
GiveUp(k)  ==
  /\ inst[k].st \in {"send", "confirm"}
  /\ Set(k, IF Kept THEN "done" ELSE "clean1") /\ Log(<<"give-up", inst[k].id>>) /\ UNCHANGED <<known, handle, conf>>
Confirm(k) ==
  /\ inst[k].st = "confirm"
  /\ Set(k, IF Kept THEN "done" ELSE "done") /\ conf' = conf \cup {inst[k].id}
  /\ handle' = IF Kept THEN handle ELSE [handle EXCEPT ![inst[k].id] = 0]
  /\ Log(<<"confirm-yes", inst[k].id>>) /\ UNCHANGED known
Crash(k)   == /\ inst[k].st \in {"send", "confirm"} /\ Set(k, "crashed") /\ Log(<<"crash", inst[k].id>>)
              /\ UNCHANGED <<known, handle, conf>>
Clean1(k)  == inst[k].st = "clean1" /\ Set(k, "clean2") /\ handle' = [handle EXCEPT ![inst[k].id] = 0] /\ Quiet /\ UNCHANGED <<known, conf>>
Clean2(k)  == inst[k].st = "clean2" /\ Set(k, "done") /\ known' = known \ {inst[k].id} /\ Quiet /\ UNCHANGED <<handle, conf>>
Attempt(k) == /\ (SendOk(k) \/ Fail(k) \/ GiveUp(k) \/ Confirm(k) \/ Crash(k) \/ Clean1(k) \/ Clean2(k))
              /\ UNCHANGED <<pend, stale, proc, env>>

Read(r) == Gone(r) \/ (\E i \in Ids : Item(r, i)) \/ Handle(r) \/ End(r)
Refresh == Start("refresh", pend, <<"refresh", 0>>)
Next ==
  \/ \E i \in Ids : Arrive(i) \/ Land(i)
  \/ Start("notify", pend, <<"notify", 0>>) \/ Start("notify", stale, <<"notify-stale", 0>>)
  \/ Refresh \/ Start("refresh", stale, <<"refresh-stale", 0>>)
  \/ \E r \in Readers : Read(r)
  \/ \E k \in DOMAIN inst : Attempt(k)

\* ---------------------------------------------------------- properties
\* C22: at most one running attempt per request
AtMostOne == \A i \in Ids : Cardinality(Live(i)) <= 1
\* C22: what is running is known, and the latest view of an idle reader leaves nothing else behind
Tracked == \A k \in DOMAIN inst : Running(k) => inst[k].id \in known
NoLeak == (\A r \in Readers : proc[r].pc = "idle") => \A i \in Ids : handle[i] # 0 => i \in known
\* C21: a request that stays pending while refreshes keep coming always gets another attempt.
\* As a step property: when the refresh of a current view is over, every request in it has a
\* running attempt, unless that attempt ended, or an older view removed it, in the meantime.
Served ==
  \A r \in Readers : (proc[r].pc = "items" /\ Len(inst) < MaxInst) =>
    \A i \in proc[r].view \ proc[r].todo : i \in known =>
       \/ handle[i] # 0 /\ (Running(handle[i]) \/ inst[handle[i]].st \in {"done", "crashed"})
       \/ ~Kept
\* temporal form, under fairness and with no environment events left
Fair == /\ \A r \in Readers : WF_vars(Read(r))
        /\ SF_vars(Refresh)  \* a refresh may show an old state, but not forever
KeepsTrying == \A i \in Ids : (<>[](i \in pend)) => []<>(Live(i) # {} \/ Len(inst) = MaxInst)
View == <<pend, stale, known, handle, inst, proc, conf, env>>
Export == (\A r \in Readers : proc[r].pc = "idle") => PrintT("@@P " \o ToString(path))
=============================================================================
