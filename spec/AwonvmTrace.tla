---------------------------- MODULE AwonvmTrace ----------------------------
(* A call answers "ok" (accepted), "refused" (an exception) - and a refused   *)
(* call changes nothing.  E.n is the size the object reports after the call.  *)
EXTENDS Awonvm, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
Same == UNCHANGED vars
SizeOK == phase' # "closed" => E.n = count'
CommittedOK == phase' # "closed" => E.c = (phase' = "read")
St == SizeOK /\ CommittedOK

TReset == /\ IsEvent("Reset")
          /\ file' = <<>> /\ phase' = "closed" /\ count' = 0 /\ reserved' = 0
          /\ inflight' = {} /\ data' = <<>> /\ direct' = FALSE /\ aio' = TRUE
TOpen == IsEvent("open") /\ E.r = "ok" /\ Open(E.direct, E.aio) /\ St
TPush == /\ IsEvent("push")
         /\ IF CanPush(E.aligned) THEN E.r = "ok" /\ E.pos = count /\ Push(E.v, E.aligned)
                                  ELSE E.r = "refused" /\ Same
         /\ St
TRun == IsEvent("run") /\ E.r = "ok" /\ E.pos = count /\ PushRun(E.vs) /\ St
TAPush == /\ IsEvent("apush")
          /\ IF CanAPush THEN E.r = "ok" /\ E.pos = count /\ APush(E.v)
                         ELSE E.r = "refused" /\ Same
          /\ St
TReserve == /\ IsEvent("reserve") /\ E.r = "ok"
            /\ IF phase = "build" THEN Reserve(E.k) ELSE Same
            /\ St
TCommit == IsEvent("commit") /\ E.r = "ok" /\ Commit /\ St
TClose == IsEvent("close") /\ E.r = "ok" /\ Close
TMove == IsEvent("move") /\ E.r = "ok" /\ Move /\ St
TSetDirect == IsEvent("setdirect") /\ E.r = "ok" /\ SetDirect(E.b) /\ St
TGet == /\ IsEvent("get")
        /\ IF CanGet(E.i) THEN E.r = "ok" /\ E.v = Value(E.i) ELSE E.r = "refused"
        /\ Same /\ St
TAGet == /\ IsEvent("aget")
         /\ IF CanGet(E.i) /\ aio THEN E.r = "ok" /\ E.got = <<Value(E.i)>>
                           ELSE E.r = "refused" /\ E.got = <<>>
         /\ Same /\ St
TAGets == /\ IsEvent("agets")
          /\ LET is == E.is IN
             IF (phase = "read" /\ aio /\ \A j \in 1..Len(is) : InBounds(is[j])) = TRUE
             THEN /\ E.r = "ok" /\ E.got = [j \in 1..Len(is) |-> <<data[is[j] + 1]>>]
             ELSE E.r = "refused" /\ \A j \in 1..Len(E.got) : E.got[j] = <<>>
          /\ Same /\ St
TraceNext == TReset \/ TOpen \/ TRun \/ TPush \/ TAPush \/ TReserve \/ TCommit \/ TClose \/ TMove
             \/ TSetDirect \/ TGet \/ TAGet \/ TAGets
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
