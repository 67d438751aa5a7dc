--------------------------- MODULE CounterTrace ---------------------------
EXTENDS Counter, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
TReset == IsEvent("Reset") /\ cnt' = Empty /\ open' = TRUE /\ handed' = Empty
TOpen == IsEvent("open") /\ Open /\ E.r = TRUE
TClose == IsEvent("close") /\ Close
TFlush == IsEvent("flush") /\ Flush
TGet == IsEvent("get") /\ Get(E.k, E.r)
TGai == IsEvent("gai") /\ E.ok = TRUE /\ GetAndIncrement(E.k, E.r)
TInc == IsEvent("inc") /\ E.r = TRUE /\ Increment(E.k, E.d)
TSet == IsEvent("set") /\ E.r = TRUE /\ Set(E.k, E.v)
TRemove == IsEvent("remove") /\ E.r = TRUE /\ Remove(E.k)
TraceNext == TReset \/ TOpen \/ TClose \/ TFlush \/ TGet \/ TGai \/ TInc \/ TSet \/ TRemove
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
