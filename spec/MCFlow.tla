------------------------------- MODULE MCFlow -------------------------------
(* The augmenting-path computation, step by step, for every small graph and   *)
(* every choice of paths, split among the connected components as in the      *)
(* parallel version.  TLC checks that every intermediate flow is valid, that   *)
(* the computation ends, and that the end is a minimum cut, globally.          *)
(* Wrong variant: UseReverse = FALSE, no reciprocal edges.                     *)
EXTENDS FlowGraph

CONSTANTS MaxEdges, MaxCap, NV, UseReverse

VARIABLES pc
vars == <<fvars, pc>>

Kinds == {[s |-> a, e |-> b, c |-> c] : a \in 0..(NV - 1), b \in 0..(NV - 1), c \in 1..MaxCap}
         \cup {[s |-> S, e |-> b, c |-> c] : b \in 0..(NV - 1), c \in 1..MaxCap}
         \cup {[s |-> a, e |-> T, c |-> c] : a \in 0..(NV - 1), c \in 1..MaxCap}
\* one representative per multiset of edges
Key(e) == (IF e.s = S THEN 50 ELSE e.s) * 1000 + (IF e.e = T THEN 50 ELSE e.e) * 10 + e.c
Graphs == UNION {{g \in [1..k -> Kinds] : \A i \in 1..(k - 1) : Key(g[i]) <= Key(g[i + 1])} : k \in 0..MaxEdges}

\* components of the inner vertices, source and sink removed
RECURSIVE Comp(_)
Comp(R) == LET R2 == R \cup {edges[i].e : i \in {j \in DOMAIN edges : edges[j].s \in R /\ edges[j].e # T}}
                       \cup {edges[i].s : i \in {j \in DOMAIN edges : edges[j].e \in R /\ edges[j].s # S}}
           IN IF R2 = R THEN R ELSE Comp(R2)
Components == {Comp({v}) : v \in Inner}

\* simple residual paths inside a component: sequences of <<edge, forward?>>
RECURSIVE PathsFrom(_, _, _)
PathsFrom(v, seen, C) ==
  IF v = T THEN {<<>>}
  ELSE UNION {LET i == x[1]
                  w == IF x[2] THEN edges[i].e ELSE edges[i].s
              IN {<<x>> \o p : p \in PathsFrom(w, seen \cup {w}, C)}
              : x \in {y \in (DOMAIN edges) \X {TRUE, FALSE} :
                        LET w == IF y[2] THEN edges[y[1]].e ELSE edges[y[1]].s
                            u == IF y[2] THEN edges[y[1]].s ELSE edges[y[1]].e
                        IN /\ u = v /\ w \notin seen /\ (w \in C \/ w = T)
                           /\ IF y[2] THEN flow[y[1]] < edges[y[1]].c ELSE UseReverse /\ flow[y[1]] > 0}}
Width(p) == LET W == {IF p[k][2] THEN edges[p[k][1]].c - flow[p[k][1]] ELSE flow[p[k][1]] : k \in DOMAIN p}
            IN CHOOSE w \in W : \A x \in W : w <= x
Used(p, i, d) == \E k \in DOMAIN p : p[k] = <<i, d>>

Init == /\ n = NV /\ edges \in Graphs /\ st = "building"
        /\ flow = [i \in DOMAIN edges |-> 0]
        /\ pc = [C \in Components |-> "run"]
Augment(C) == /\ pc[C] = "run"
              /\ \E p \in PathsFrom(S, {S}, C) :
                    flow' = [i \in DOMAIN edges |-> IF Used(p, i, TRUE) THEN flow[i] + Width(p)
                                                    ELSE IF Used(p, i, FALSE) THEN flow[i] - Width(p) ELSE flow[i]]
              /\ UNCHANGED <<n, st, edges, pc>>
Finish(C) == /\ pc[C] = "run" /\ PathsFrom(S, {S}, C) = {}
             /\ pc' = [pc EXCEPT ![C] = "done"]
             /\ UNCHANGED fvars
Next == \E C \in DOMAIN pc : Augment(C) \/ Finish(C)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == \A C \in DOMAIN pc : pc[C] = "done"
StepsValid == Valid(flow)
Cuts == {A \cup {S} : A \in SUBSET Inner}
CutCap(A) == SumOver(CapOf, {i \in DOMAIN edges : edges[i].s \in A /\ edges[i].e \notin A})
MinCut == LET W == {CutCap(A) : A \in Cuts} IN CHOOSE w \in W : \A x \in W : w <= x
EndIsMaximum == AllDone => (Maximum(flow) /\ Value(flow) = MinCut)
\* the criterion used on traces is exact
Criterion == Maximum(flow) <=> (Value(flow) = MinCut)
Ends == <>AllDone
=============================================================================
