---------------------------- MODULE KwIndexTrace ----------------------------
EXTENDS KwIndex, TraceBase
tvars == <<ivars, l>>
TraceInit == Init /\ l = 1
TReset == IsEvent("Reset") /\ idx' = Empty /\ built' = FALSE
(* a list of any length up to `max` is accepted, a longer one refused; -1: no limit *)
TPut == IsEvent("put") /\ E.ok /\ (E.max = -1 \/ Len(E.v) <= E.max) /\ Put(E.k, E.v)
TRefused == IsEvent("put") /\ ~E.ok /\ E.max # -1 /\ Len(E.v) > E.max /\ UNCHANGED ivars
(* once the index is built nothing more is accepted *)
TLate == IsEvent("put") /\ ~E.ok /\ built /\ UNCHANGED ivars
TBuild == IsEvent("build") /\ E.ok /\ Build
TOpen == IsEvent("open") /\ Open
TSearch == IsEvent("search") /\ Search(E.k, E.r)
TPart == IsEvent("part") /\ Part(E.k, E.r, E.stash)
TraceNext == TReset \/ TPut \/ TRefused \/ TLate \/ TBuild \/ TOpen \/ TSearch \/ TPart
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
