---------------------------- MODULE KvMapTrace ----------------------------
EXTENDS KvMap, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
TReset == IsEvent("Reset") /\ map' = Empty /\ mem' = Empty /\ tables' = <<>> /\ open' = TRUE
TOpen == IsEvent("open") /\ Open /\ E.r = TRUE
TClose == IsEvent("close") /\ Close
TPut == IsEvent("put") /\ Put(E.k, E.v) /\ E.r = TRUE
TRemove == IsEvent("remove") /\ Remove(E.k) /\ E.r = TRUE
TGet == IsEvent("get") /\ Get(E.k, E.r)
TFlush == IsEvent("flush") /\ Flush
TraceNext == TReset \/ TOpen \/ TClose \/ TPut \/ TRemove \/ TGet \/ TFlush
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
