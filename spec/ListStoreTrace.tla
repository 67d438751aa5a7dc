-------------------------- MODULE ListStoreTrace --------------------------
EXTENDS ListStore, TraceBase
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
TReset == IsEvent("Reset") /\ lists' = Empty /\ open' = TRUE
TOpen == IsEvent("open") /\ Open /\ E.r = TRUE
TClose == IsEvent("close") /\ Close
TFlush == IsEvent("flush") /\ Flush
TPut == IsEvent("put") /\ E.r = TRUE /\ Put(E.k, E.v)
TGet == IsEvent("get") /\ Get(E.k, E.ok, E.r)
TraceNext == TReset \/ TOpen \/ TClose \/ TFlush \/ TPut \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
