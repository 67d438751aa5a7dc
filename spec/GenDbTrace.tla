---------------------------- MODULE GenDbTrace ----------------------------
EXTENDS GenDb, TraceBase
tvars == <<gvars, l>>
TraceInit == size = -1 /\ done = None /\ rnd = None /\ l = 1
TReset == IsEvent("Reset") /\ size' = -1 /\ done' = None /\ rnd' = None
TStart == IsEvent("gen") /\ Start(E.n)
TDoc == IsEvent("doc") /\ Doc(E.t, E.r)
TReturn == IsEvent("return") /\ Return(E.running, E.late)
TWhole == IsEvent("whole") /\ (Whole(E.n, E.threads, E.rand, E.percent, E.running, E.late))
TraceNext == TReset \/ TWhole \/ TStart \/ TDoc \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TGroups == ("Group-20" :> 20) @@ ("Group-30" :> 30) @@ ("Group-60" :> 60) @@ ("Group-10^1" :> 10)
           @@ ("Group-10^2" :> 100) @@ ("Group-10^3" :> 1000) @@ ("Group-10^4" :> 10000)
           @@ ("Group-10^5" :> 100000) @@ ("Group-10^6" :> 1000000)
TRand == ("Group-rand-10^2" :> 100) @@ ("Group-rand-10^3" :> 1000) @@ ("Group-rand-10^4" :> 10000)
         @@ ("Group-rand-10^5" :> 100000) @@ ("Group-rand-10^6" :> 1000000)
TPercent == ("0.1_1" :> 1000) @@ ("0.1_2" :> 1000) @@ ("1_1" :> 100) @@ ("1_2" :> 100) @@ ("10_1" :> 10) @@ ("10_2" :> 10)
=============================================================================
