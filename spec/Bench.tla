------------------------------- MODULE Bench -------------------------------
(* Benchmarks and log targets.                                                *)
(*   now     the clock (milliseconds)                                         *)
(*   live    benchmark -> [begin, stop (-1: running), count, msg]             *)
(*   target  where benchmark records go: 0 nowhere, k the k-th file           *)
(*   file    records written, per file                                        *)
(*   log     where log messages go: "other", "null", or the k-th sink         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT LaterCount    \* may a later stop change the count?  (nothing relies on it: both accepted)
VARIABLES now, live, target, file, log, sinks
bvars == <<now, live, target, file, log, sinks>>
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Zero == [x \in {} |-> 0]

Tick(d) == now' = now + d /\ UNCHANGED <<live, target, file, log, sinks>>
New(b, m) == b \notin DOMAIN live /\ live' = Ext(live, b, [begin |-> now, stop |-> -1, count |-> 0, msg |-> m])
             /\ UNCHANGED <<now, target, file, log, sinks>>
Stop(b) == /\ live' = IF live[b].stop = -1 THEN [live EXCEPT ![b].stop = now] ELSE live
           /\ UNCHANGED <<now, target, file, log, sinks>>
StopCount(b, c) == /\ IF live[b].stop = -1 THEN live' = [live EXCEPT ![b].stop = now, ![b].count = c]
                      ELSE live' = live \/ (LaterCount /\ live' = [live EXCEPT ![b].count = c])
                   /\ UNCHANGED <<now, target, file, log, sinks>>
SetCount(b, c) == live' = [live EXCEPT ![b].count = c] /\ UNCHANGED <<now, target, file, log, sinks>>
\* the record of a benchmark: count, duration, duration per item
Record(b) == LET x == live[b]
                 d == (IF x.stop = -1 THEN now ELSE x.stop) - x.begin
             IN [msg |-> x.msg, items |-> x.count, time |-> d]
Destroy(b) == /\ live' = Drop(live, b)
              /\ file' = IF target = 0 THEN file ELSE [file EXCEPT ![target] = Append(@, Record(b))]
              /\ UNCHANGED <<now, target, log, sinks>>
\* each change of target opens a new file
SetFile == /\ file' = Append(file, <<>>) /\ target' = Len(file) + 1
           /\ UNCHANGED <<now, live, log, sinks>>
\* log messages
SetLogger(k) == /\ log' = k
                /\ sinks' = IF k = "null" THEN sinks ELSE Ext(sinks, k, IF k \in DOMAIN sinks THEN sinks[k] ELSE <<>>)
                /\ UNCHANGED <<now, live, target, file>>
Message(m) == /\ sinks' = IF log \in {"null", "other"} THEN sinks ELSE [sinks EXCEPT ![log] = Append(@, m)]
              /\ UNCHANGED <<now, live, target, file, log>>
=============================================================================
