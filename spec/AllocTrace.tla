---------------------------- MODULE AllocTrace ----------------------------
EXTENDS Alloc, TraceBase
CONSTANT CheckMin
tvars == <<avars, l>>
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == nb = 0 /\ page = 0 /\ lists = <<>> /\ done = FALSE /\ pu = <<>> /\ pv = <<>> /\ l = 1
TReset == /\ IsEvent("Reset") /\ nb' = E.nb /\ page' = E.page /\ lists' = <<>> /\ done' = FALSE
          /\ pu' = <<>> /\ pv' = <<>>
TInsert == IsEvent("insert") /\ Insert(E.u, E.v, E.len, E.id, E.r)
\* how: what a walk over the buckets reports, as the store builder does it
\* (bucket, list, first or second bucket of the list, part)
ReportedOnce == /\ \A i \in DOMAIN lists :
                      /\ Cardinality({x \in DOMAIN E.parts : E.parts[x][2] = i /\ E.parts[x][3] = 0}) = 1
                      /\ Cardinality({x \in DOMAIN E.parts : E.parts[x][2] = i /\ E.parts[x][3] = 1}) = 1
                /\ \A x \in DOMAIN E.parts :
                      /\ E.parts[x][2] \in DOMAIN lists
                      /\ E.parts[x][1] = IF E.parts[x][3] = 0 THEN lists[E.parts[x][2]].u ELSE lists[E.parts[x][2]].v
                      /\ E.parts[x][4] = IF E.parts[x][3] = 0 THEN E.a[E.parts[x][2]] ELSE E.b[E.parts[x][2]]
TAllocate == /\ IsEvent("allocate") /\ Allocate(E.a, E.b, E.r)
             /\ E.r = "ok" => /\ ReportedOnce
                              \* the stash is reported as exactly the lists with something left over
                              /\ SetOf(E.stash) = {i \in DOMAIN lists : StashOf(E.a, E.b)[i] > 0}
                              /\ CheckMin => Minimal(E.a, E.b)
\* queries before the allocation are refused
TQuery == IsEvent("query") /\ UNCHANGED avars /\ E.r = (IF done THEN "ok" ELSE "state") /\ E.done = done
TraceNext == TReset \/ TInsert \/ TAllocate \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
