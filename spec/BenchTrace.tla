---------------------------- MODULE BenchTrace ----------------------------
EXTENDS Bench, TraceBase
VARIABLE burst    \* how many benchmarks ended in a burst, per file
tvars == <<bvars, burst, l>>
TraceInit == now = 0 /\ live = Zero /\ target = 0 /\ file = <<>> /\ log = "other" /\ sinks = Zero /\ burst = Zero /\ l = 1
TReset == IsEvent("Reset") /\ now' = 0 /\ live' = Zero /\ target' = 0 /\ file' = <<>> /\ log' = "other" /\ sinks' = Zero /\ burst' = Zero
TTick == IsEvent("tick") /\ Tick(E.d)
TNew == IsEvent("new") /\ New(E.b, E.m)
TStop == IsEvent("stop") /\ Stop(E.b)
TStopC == IsEvent("stopc") /\ StopCount(E.b, E.c)
TCount == IsEvent("count") /\ SetCount(E.b, E.c)
TDestroy == IsEvent("destroy") /\ Destroy(E.b)
TSetFile == IsEvent("setfile") /\ SetFile /\ E.r = "ok"
TSetLog == IsEvent("setlog") /\ SetLogger(E.k) /\ E.r = "ok"
TMsg == IsEvent("msg") /\ Message(E.m)
\* what the file holds, every line decoded; per is the reported time per item in microseconds
Line(x) == [msg |-> x.msg, items |-> x.items, time |-> x.time]
PerOk(x) == LET want == (x.time * 1000) \div (IF x.items > 1 THEN x.items ELSE 1)
            IN x.per \in (want - 1)..(want + 1)
TRead == /\ IsEvent("read") /\ UNCHANGED bvars
         /\ [i \in DOMAIN E.r |-> Line(E.r[i])] = file[E.k]
         /\ \A i \in DOMAIN E.r : PerOk(E.r[i])
TSink == IsEvent("sink") /\ UNCHANGED bvars /\ E.r = sinks[E.k]
\* benchmarks reporting 1..n items ended at the same time; each has its record, whatever their order
TBurst == IsEvent("burst") /\ target # 0 /\ file[target] = <<>> /\ burst' = Ext(burst, target, E.n) /\ UNCHANGED bvars
TTally == /\ IsEvent("tally") /\ E.n = burst[E.k] /\ E.good = E.n /\ E.min = 1 /\ E.max = E.n /\ UNCHANGED <<bvars, burst>>
One == TTick \/ TNew \/ TStop \/ TStopC \/ TCount \/ TDestroy \/ TSetFile \/ TSetLog \/ TMsg \/ TRead \/ TSink
TraceNext == TReset \/ (One /\ UNCHANGED burst) \/ TBurst \/ TTally
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
