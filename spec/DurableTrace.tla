---------------------------- MODULE DurableTrace ----------------------------
EXTENDS Durable, TraceBase
VARIABLE none
tvars == <<dvars, none, l>>
Op == [op |-> E.op, k |-> E.k, v |-> E.v]
TraceInit == DInit /\ none = 0 /\ l = 1
TReset == /\ IsEvent("Reset") /\ acked' = Empty /\ pend' = NoOp /\ up' = FALSE
          /\ none' = IF E.kind = "counter" THEN -1 ELSE "None"
TOpen == IsEvent("open") /\ DOpen /\ E.r = TRUE /\ UNCHANGED none
\* killed while opening: nothing had been acknowledged in this phase
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED <<dvars, none>>
TBegin == IsEvent("begin") /\ DBegin(Op) /\ UNCHANGED none
\* the value an increment hands out is the one that is stored
TEnd == /\ IsEvent("end") /\ DEnd /\ E.ok = TRUE /\ UNCHANGED none
        /\ (pend.op = "inc" /\ E.r # -1) => E.r = Next1(acked, pend)
TGet == /\ IsEvent("get") /\ up /\ UNCHANGED <<dvars, none>>
        /\ E.r = IF E.k \in DOMAIN acked THEN acked[E.k] ELSE none
TFlush == IsEvent("flush") /\ up /\ UNCHANGED <<dvars, none>>
TCrash == IsEvent("crash") /\ DCrash /\ UNCHANGED none
TClose == IsEvent("close") /\ DClose /\ UNCHANGED none
TraceNext == TReset \/ TOpen \/ TOpenCrash \/ TBegin \/ TEnd \/ TGet \/ TFlush \/ TCrash \/ TClose
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
