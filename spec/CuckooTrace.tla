---------------------------- MODULE CuckooTrace ----------------------------
EXTENDS Cuckoo, TraceBase
tvars == <<cvars, l>>
None == [x \in {} |-> <<>>]
TraceInit == size = 1 /\ depth = 1 /\ h = None /\ tab = Blank(1) /\ lost = {} /\ l = 1
TReset == IsEvent("Reset") /\ size' = E.size /\ depth' = E.depth /\ h' = None /\ tab' = Blank(E.size) /\ lost' = {}
Tab(a) == [s \in 0..(Len(a) - 1) |-> a[s + 1]]
TInsert == /\ IsEvent("ins") /\ Len(E.t1) = size /\ Len(E.t2) = size
           /\ Insert(E.id, E.a, E.b, E.r, [i \in {1, 2} |-> IF i = 1 THEN Tab(E.t1) ELSE Tab(E.t2)])
TBad == IsEvent("bad") /\ E.r /\ UNCHANGED cvars
TraceNext == TReset \/ TInsert \/ TBad
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
