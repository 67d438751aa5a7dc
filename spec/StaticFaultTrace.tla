-------------------------- MODULE StaticFaultTrace --------------------------
(* Recorded constructions and lookups of static indexes on a disk that fails.   *)
(* E.f is the number of calls that failed during the operation: without such a   *)
(* failure nothing may be refused, and what is not refused must be right.        *)
EXTENDS TraceBase
CONSTANTS Ignore
VARIABLES idx, unsure, built, up
tvars == <<idx, unsure, built, up, l>>
Nothing == [x \in {} |-> <<>>]
Idx(k) == IF k \in DOMAIN idx THEN idx[k] ELSE <<>>
May(ok) == ok \/ E.f > 0
TraceInit == idx = Nothing /\ unsure = {} /\ built = FALSE /\ up = FALSE /\ l = 1
TReset == IsEvent("Reset") /\ idx' = Nothing /\ unsure' = {} /\ built' = FALSE /\ up' = FALSE
TStart == IsEvent("start") /\ May(E.ok) /\ UNCHANGED <<idx, unsure, built, up>>
TPut == /\ IsEvent("put") /\ ~built /\ May(E.ok)
        /\ idx' = [x \in DOMAIN idx \cup {E.k} |-> IF x = E.k THEN E.v ELSE idx[x]]
        /\ unsure' = IF E.ok THEN unsure ELSE unsure \cup {E.k}
        /\ UNCHANGED <<built, up>>
(* a build that cannot write its stash at all is refused; one without a stash needs no such file *)
TBuild == /\ IsEvent("build") /\ ~built /\ (May(E.ok) \/ E.nodir)
          /\ built' = E.ok /\ UNCHANGED <<idx, unsure, up>>
TDestroyed == IsEvent("destroyed") /\ UNCHANGED <<idx, unsure, built, up>>
(* the process is ended by RocksDB (see killpoints.hpp) before anything was reported *)
TDied == IsEvent("opencrash") /\ up' = FALSE /\ UNCHANGED <<idx, unsure, built>>
TOpen == /\ IsEvent("open") /\ built /\ May(E.ok) /\ up' = E.ok /\ UNCHANGED <<idx, unsure, built>>
TSearch == /\ IsEvent("search") /\ up /\ May(E.ok)
           /\ (E.ok /\ E.k \notin unsure) => E.r = Idx(E.k)
           /\ UNCHANGED <<idx, unsure, built, up>>
TraceNext == TReset \/ TStart \/ TPut \/ TBuild \/ TDestroyed \/ TDied \/ TOpen \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
