----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace (newline-delimited JSON, one event per line) and  *)
(* accepting it.  Each line is consumed by exactly one step; `l` is the next  *)
(* line to consume.  Trace specifications may take silent steps, so the       *)
(* verdict uses the largest `l` reached, not the length of the behaviour.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Has(f) == f \in DOMAIN E

ASSUME TLCSet(1, 1)
TraceMark == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
TraceAccepted == /\ PrintT("@@MAXL " \o ToString(TLCGet(1)))
                 /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
