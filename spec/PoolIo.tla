------------------------------- MODULE PoolIo -------------------------------
(* The thread-pool I/O scheduler: schedulers sharing one pool of workers.     *)
(*   st       request |-> "queued" | "running" | "performed" | "calling"      *)
(*             | "called" | "locked" (the worker holds the scheduler's lock,  *)
(*             has counted the request as finished, and will notify) | "over" *)
(*   running  scheduler |-> its counter of unfinished requests                *)
(*   ph       scheduler |-> "open" | "waiting" | "destroying" | "gone"        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Plan,        \* scheduler |-> requests (model workload)
          Workers, LockedWait
VARIABLES st, own, running, ph
vars == <<st, own, running, ph>>
Empty == [x \in {} |-> 0]

Init == st = Empty /\ own = Empty /\ running = Empty /\ ph = Empty
Create(s) == /\ s \notin DOMAIN ph
             /\ ph' = (s :> "open") @@ ph /\ running' = (s :> 0) @@ running
             /\ UNCHANGED <<st, own>>
Submit(s, r) == /\ s \in DOMAIN ph /\ ph[s] = "open" /\ r \notin DOMAIN st
                /\ st' = (r :> "queued") @@ st /\ own' = (r :> s) @@ own
                /\ running' = [running EXCEPT ![s] = @ + 1]
                /\ UNCHANGED ph
Busy == {r \in DOMAIN st : st[r] \notin {"queued", "over"}}
Go(r, a, b) == r \in DOMAIN st /\ st[r] = a /\ st' = [st EXCEPT ![r] = b]
Start(r) == Cardinality(Busy) < Workers /\ Go(r, "queued", "running") /\ UNCHANGED <<own, running, ph>>
Perform(r) == Go(r, "running", "performed") /\ UNCHANGED <<own, running, ph>>
CallBegin(r) == Go(r, "performed", "calling") /\ UNCHANGED <<own, running, ph>>
CallEnd(r) == Go(r, "calling", "called") /\ UNCHANGED <<own, running, ph>>
Locked(s) == \E r \in DOMAIN st : own[r] = s /\ st[r] = "locked"
Count(r) == /\ r \in DOMAIN st /\ ~Locked(own[r])
            /\ Go(r, "called", "locked")
            /\ running' = [running EXCEPT ![own[r]] = @ - 1] /\ UNCHANGED <<own, ph>>
\* notify under the lock, then release it: the scheduler must still be there
Notify(r) == Go(r, "locked", "over") /\ UNCHANGED <<own, running, ph>>

WaitCall(s) == s \in DOMAIN ph /\ ph[s] = "open" /\ ph' = [ph EXCEPT ![s] = "waiting"] /\ UNCHANGED <<st, own, running>>
CanReturn(s) == running[s] = 0 /\ (LockedWait => ~Locked(s))
WaitRet(s) == s \in DOMAIN ph /\ ph[s] = "waiting" /\ CanReturn(s)
              /\ ph' = [ph EXCEPT ![s] = "open"] /\ UNCHANGED <<st, own, running>>
Destroy(s) == s \in DOMAIN ph /\ ph[s] = "open" /\ ph' = [ph EXCEPT ![s] = "destroying"]
              /\ UNCHANGED <<st, own, running>>
Gone(s) == s \in DOMAIN ph /\ ph[s] = "destroying" /\ CanReturn(s)
           /\ ph' = [ph EXCEPT ![s] = "gone"] /\ UNCHANGED <<st, own, running>>

Next == \E s \in DOMAIN Plan :
          \/ Create(s) \/ WaitCall(s) \/ WaitRet(s)
          \/ Destroy(s) /\ Plan[s] \subseteq DOMAIN st
          \/ Gone(s)
          \/ \E r \in Plan[s] : Submit(s, r) \/ Start(r) \/ Perform(r) \/ CallBegin(r) \/ CallEnd(r)
                                \/ Count(r) \/ Notify(r)
Fair == \A s \in DOMAIN Plan : WF_vars(WaitRet(s)) /\ WF_vars(Gone(s)) /\
          \A r \in Plan[s] : WF_vars(Start(r)) /\ WF_vars(Perform(r)) /\ WF_vars(CallBegin(r)) /\ WF_vars(CallEnd(r))
                             /\ SF_vars(Count(r)) /\ WF_vars(Notify(r))
Spec == Init /\ [][Next]_vars /\ Fair

AllCalled(s) == \A r \in DOMAIN st : own[r] = s => st[r] \in {"called", "locked", "over"}
\* a request that has not notified yet keeps its scheduler alive
AliveWhileUsed == \A r \in DOMAIN st : st[r] # "over" => ph[own[r]] # "gone"
GoneMeansCalled == \A s \in DOMAIN ph : ph[s] = "gone" => AllCalled(s)
CountRight == \A s \in DOMAIN ph : running[s] = Cardinality({r \in DOMAIN st : own[r] = s /\ st[r] \notin {"locked", "over"}})
Bounded == Cardinality(Busy) <= Workers
WaitOK == [][\A s \in DOMAIN ph : (ph[s] = "waiting" /\ ph'[s] = "open") => AllCalled(s)]_vars
WaitReturns == \A s \in DOMAIN Plan : /\ (s \in DOMAIN ph /\ ph[s] = "waiting") ~> (s \in DOMAIN ph /\ ph[s] # "waiting")
                                      /\ (s \in DOMAIN ph /\ ph[s] = "destroying") ~> (s \in DOMAIN ph /\ ph[s] = "gone")
Completes == \A s \in DOMAIN Plan : \A r \in Plan[s] : (r \in DOMAIN st) ~> (r \in DOMAIN st /\ st[r] = "over")
=============================================================================
