--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Silent steps: the insertion of a task into the queue (between the call of    *)
(* enqueue and its return), taking a task off the queue, and stopping.          *)
(* They are taken only when the next event needs them.                          *)
EXTENDS ThreadPool, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
TReset == /\ IsEvent("Reset") /\ W' = E.w /\ ins' = {} /\ q' = <<>> /\ held' = {} /\ run' = {} /\ over' = {}
          /\ acc' = {} /\ stop' = "no" /\ joins' = 0
TCall == IsEvent("enq") /\ EnqCall(E.t)
TOk == IsEvent("enqret") /\ E.r = "ok" /\ EnqOk(E.t)
TRefused == IsEvent("enqret") /\ E.r = "refused" /\ EnqRefused(E.t)
TStart == IsEvent("start") /\ Start(E.t)
TEnd == IsEvent("end") /\ End(E.t)
\* E.v is what the future gave: the task's own value, or the exception it threw
TFuture == IsEvent("future") /\ E.t \in over /\ E.v = E.want /\ UNCHANGED vars
TJoin == IsEvent("join") /\ JoinCall
TJoinRet == IsEvent("joinret") /\ JoinRet
\* a silent step is needed before the next event
NeedPop == l <= Len(Trace) /\ E.ev = "start" /\ E.t \notin held
NeedIns == l <= Len(Trace) /\ \/ E.ev = "start" /\ E.t \notin acc
                              \/ E.ev = "enqret" /\ E.r = "ok" /\ E.t \notin acc
NeedStop == l <= Len(Trace) /\ stop = "may" /\ (E.ev = "joinret" \/ (E.ev = "enqret" /\ E.r = "refused"))
Silent == /\ l' = l
          /\ \/ NeedIns /\ \E t \in ins : Insert(t)
             \/ NeedPop /\ ~NeedIns /\ Pop
             \/ NeedStop /\ Stop
TraceNext == TReset \/ TCall \/ TOk \/ TRefused \/ TStart \/ TEnd \/ TFuture \/ TJoin \/ TJoinRet \/ Silent
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
