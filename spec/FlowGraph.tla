----------------------------- MODULE FlowGraph -----------------------------
(* The flow graph of Tethys: edges are added while building, a maximum flow   *)
(* is computed once, and is then reported.                                    *)
(*   n     number of inner vertices 0..n-1;  S source, T sink                 *)
(*   st    "building", "residual", "flow"                                     *)
(*   edges sequence of [s, e, c]                                              *)
(*   flow  sequence: the flow of each edge (known once computed)              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES n, st, edges, flow
fvars == <<n, st, edges, flow>>

S == 100000
T == 100001
Inner == 0..(n - 1)
Out(v) == {i \in DOMAIN edges : edges[i].s = v}
In(v) == {i \in DOMAIN edges : edges[i].e = v}

RECURSIVE SumOver(_, _)
SumOver(f, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : TRUE IN f[i] + SumOver(f, I \ {i})
CapOf == [i \in DOMAIN edges |-> edges[i].c]

\* a valid flow
Bounded(f) == DOMAIN f = DOMAIN edges /\ \A i \in DOMAIN edges : 0 <= f[i] /\ f[i] <= edges[i].c
Conserved(f) == \A v \in Inner : SumOver(f, In(v)) = SumOver(f, Out(v))
Valid(f) == Bounded(f) /\ Conserved(f)
Value(f) == SumOver(f, Out(S))

\* vertices reachable from the source in the residual network; the flow is maximum iff the
\* sink is not among them (max-flow min-cut, itself checked by MCFlow)
RECURSIVE Reach(_, _)
Reach(f, R) == LET R2 == R \cup {edges[i].e : i \in {j \in DOMAIN edges : edges[j].s \in R /\ f[j] < edges[j].c}}
                          \cup {edges[i].s : i \in {j \in DOMAIN edges : edges[j].e \in R /\ f[j] > 0}}
               IN IF R2 = R THEN R ELSE Reach(f, R2)
Maximum(f) == T \notin Reach(f, {S})

\* ---- operations; r is "ok" or the refusal
GoodEdge(k, s, e) == /\ (k # "source") => s \in Inner
                     /\ (k # "sink") => e \in Inner
AddEdge(k, s, e, c, r) ==
  IF st # "building" THEN r = "state" /\ UNCHANGED fvars
  ELSE IF ~GoodEdge(k, s, e) THEN r = "range" /\ UNCHANGED fvars
  ELSE /\ r = "ok"
       /\ edges' = Append(edges, [s |-> IF k = "source" THEN S ELSE s,
                                  e |-> IF k = "sink" THEN T ELSE e, c |-> c])
       /\ UNCHANGED <<n, st, flow>>
\* f is the flow found
Compute(f, r) ==
  IF st # "building" THEN r = "state" /\ UNCHANGED fvars
  ELSE /\ r = "ok" /\ st' = "residual"
       /\ Valid(f) /\ Maximum(f)
       /\ flow' = f
       /\ UNCHANGED <<n, edges>>
Transform(r) ==
  IF st # "residual" THEN r = "state" /\ UNCHANGED fvars
  ELSE r = "ok" /\ st' = "flow" /\ UNCHANGED <<n, edges, flow>>
\* queries; -1 stands for a refusal
FlowQuery(x, r) == r = (IF st = "flow" THEN x ELSE -1) /\ UNCHANGED fvars
TotalFlow(r) == FlowQuery(Value(flow), r)
EdgeFlow(i, r) == FlowQuery(flow[i], r)
VertexFlow(v, dir, r) == FlowQuery(SumOver(flow, IF dir = "in" THEN In(v) ELSE Out(v)), r)
VertexCap(v, dir, r) == r = SumOver(CapOf, IF dir = "in" THEN In(v) ELSE Out(v)) /\ UNCHANGED fvars
EdgeCap(i, r) == r = edges[i].c /\ UNCHANGED fvars
=============================================================================
