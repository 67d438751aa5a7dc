----------------------------- MODULE FlowTrace -----------------------------
EXTENDS FlowGraph, TraceBase
tvars == <<fvars, l>>
TraceInit == n = 0 /\ st = "none" /\ edges = <<>> /\ flow = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ n' = 0 /\ st' = "none" /\ edges' = <<>> /\ flow' = <<>>
TNew == /\ IsEvent("new")
        /\ IF E.n = 0 THEN E.r = "range" /\ UNCHANGED fvars
                      ELSE E.r = "ok" /\ n' = E.n /\ st' = "building" /\ edges' = <<>> /\ flow' = <<>>
\* moving the graph changes nothing
TMove == IsEvent("move") /\ UNCHANGED fvars
TAdd == IsEvent("add") /\ AddEdge(E.k, E.s, E.e, E.c, E.r) /\ (E.r = "ok" => E.i = Len(edges))
\* rest: what the residual graph leaves on each edge; both directions add up to the capacity
TCompute == /\ IsEvent("compute") /\ Compute(E.f, E.r)
            /\ E.r = "ok" => \A i \in DOMAIN edges : E.f[i] + E.rest[i] = edges[i].c
TTransform == IsEvent("transform") /\ Transform(E.r)
TTotal == IsEvent("total") /\ TotalFlow(E.r)
TEFlow == IsEvent("eflow") /\ EdgeFlow(E.i + 1, E.r)
TECap == IsEvent("ecap") /\ EdgeCap(E.i + 1, E.r)
TVFlow == IsEvent("vflow") /\ VertexFlow(E.v, E.d, E.r)
TVCap == IsEvent("vcap") /\ VertexCap(E.v, E.d, E.r)
TraceNext == TReset \/ TNew \/ TMove \/ TAdd \/ TCompute \/ TTransform \/ TTotal \/ TEFlow \/ TECap \/ TVFlow \/ TVCap
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
