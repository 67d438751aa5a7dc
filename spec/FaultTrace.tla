----------------------------- MODULE FaultTrace -----------------------------
EXTENDS Fault, TraceBase
VARIABLES hurt  \* the table files were damaged: reads may fail (which looks like absence)
tvars == <<fvars, hurt, l>>
Op == [op |-> E.op, k |-> E.k, v |-> E.v]
TraceInit == FInit /\ none = 0 /\ hurt = FALSE /\ l = 1
TReset == /\ IsEvent("Reset") /\ poss' = [x \in {} |-> {}] /\ pend' = NoOp /\ up' = FALSE /\ hurt' = FALSE
          /\ none' = IF E.kind = "counter" THEN -1 ELSE "None"
Same == UNCHANGED hurt
TOpen == IsEvent("open") /\ (IF E.r THEN FOpen ELSE UNCHANGED fvars) /\ Same
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED fvars /\ Same
TScratched == IsEvent("scratched") /\ ~up /\ UNCHANGED fvars /\ hurt' = TRUE
TBegin == IsEvent("begin") /\ FBegin(Op) /\ Same
TEnd == /\ IsEvent("end") /\ Same
        /\ IF pend # NoOp /\ pend.op = "inc" /\ E.ok /\ E.r # -1 THEN FEnd(TRUE, {E.r}) ELSE FEnd(E.ok, Outcome(pend))
TGet == IsEvent("get") /\ up /\ (E.r \in Poss(E.k) \/ (hurt /\ E.r = none)) /\ UNCHANGED fvars /\ Same
TFlush == IsEvent("flush") /\ up /\ UNCHANGED fvars /\ Same
TDown == IsEvent("crash") /\ FDown /\ Same
TClose == IsEvent("close") /\ pend = NoOp /\ FDown /\ Same
TraceNext == TReset \/ TOpen \/ TOpenCrash \/ TScratched \/ TBegin \/ TEnd \/ TGet \/ TFlush \/ TDown \/ TClose
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
