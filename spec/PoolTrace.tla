------------------------------ MODULE PoolTrace ------------------------------
(* Recorded runs of thread-pool schedulers.  The worker's internal steps are   *)
(* not recorded; "notify" is the notification on the scheduler's condition     *)
(* variable (the last use of the scheduler by a worker).                       *)
EXTENDS PoolIo, TraceBase
VARIABLES ask, res
tvars == <<vars, l, ask, res>>
TraceInit == Init /\ l = 1 /\ ask = Empty /\ res = Empty
TReset == IsEvent("Reset") /\ st' = Empty /\ own' = Empty /\ running' = Empty /\ ph' = Empty
          /\ ask' = Empty /\ res' = Empty
Keep == UNCHANGED <<ask, res>>
TNew == IsEvent("new") /\ Create(E.s) /\ Keep
TSubmit == /\ IsEvent("submit")
           \* a callback may submit while its scheduler is being waited for
           /\ LET s == E.s  r == E.req[1] IN
              /\ s \in DOMAIN ph /\ ph[s] # "gone" /\ r \notin DOMAIN st
              /\ st' = (r :> "queued") @@ st /\ own' = (r :> s) @@ own
              /\ running' = [running EXCEPT ![s] = @ + 1] /\ UNCHANGED ph
              /\ ask' = (r :> E.req) @@ ask /\ UNCHANGED res
TSubmitRet == IsEvent("submitret") /\ E.ret = E.n /\ UNCHANGED vars /\ Keep
TPerform == /\ IsEvent("perform")
            /\ E.op[1] \in DOMAIN ask /\ E.op[5] = 1
            /\ \A i \in 2..4 : E.op[i] = ask[E.op[1]][i]
            /\ Cardinality(Busy) < Workers
            /\ Go(E.op[1], "queued", "performed") /\ UNCHANGED <<own, running, ph>>
            /\ res' = (E.op[1] :> E.res) @@ res /\ UNCHANGED ask
TCb == IsEvent("cb") /\ E.tag /\ E.id \in DOMAIN res /\ E.res = res[E.id] /\ CallBegin(E.id) /\ ph[own[E.id]] # "gone" /\ Keep
TCbRet == IsEvent("cbret") /\ E.id \in DOMAIN own /\ Go(E.id, "calling", "over")
          /\ running' = [running EXCEPT ![own[E.id]] = @ - 1] /\ UNCHANGED <<own, ph>> /\ Keep
TNotify == IsEvent("notify") /\ E.s \in DOMAIN ph /\ ph[E.s] # "gone" /\ UNCHANGED vars /\ Keep
TWaitCall == IsEvent("waitcall") /\ WaitCall(E.s) /\ Keep
TWaitRet == IsEvent("waitret") /\ WaitRet(E.s) /\ Keep
TDestroy == IsEvent("destroy") /\ Destroy(E.s) /\ Keep
TGone == IsEvent("destroyed") /\ Gone(E.s) /\ Keep
TraceNext == TReset \/ TNew \/ TSubmit \/ TSubmitRet \/ TPerform \/ TCb \/ TCbRet \/ TNotify
             \/ TWaitCall \/ TWaitRet \/ TDestroy \/ TGone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
