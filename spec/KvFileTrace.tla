---------------------------- MODULE KvFileTrace ----------------------------
(* What was written is what is read, pair by pair or as a map.                *)
EXTENDS TraceBase
VARIABLES pairs, got
tvars == <<pairs, got, l>>
TraceInit == pairs = <<>> /\ got = <<>> /\ l = 1
TReset == IsEvent("Reset") /\ pairs' = <<>> /\ got' = <<>>
TWrite == IsEvent("write") /\ pairs' = pairs \o E.kvs /\ UNCHANGED got
(* the Tethys stash: the middle of a list, between the parts its buckets hold; nothing is written when empty *)
Share(n, f, c) == IF f <= c THEN 0 ELSE IF f - c < n THEN f - c ELSE n
Middle(v, f, g, c) == SubSeq(v, Share(Len(v), f, c) + 1, Len(v) - Share(Len(v), g, c))
TStash == /\ IsEvent("stash") /\ UNCHANGED got
          /\ LET m == Middle(E.v, E.f, E.g, E.c) IN pairs' = IF m = <<>> THEN pairs ELSE Append(pairs, [k |-> E.k, v |-> m])
TNew == IsEvent("new") /\ pairs' = <<>> /\ UNCHANGED got
TBegin == IsEvent("begin") /\ got' = <<>> /\ UNCHANGED pairs
TPair == IsEvent("pair") /\ got' = Append(got, [k |-> E.k, v |-> E.r]) /\ UNCHANGED pairs
TEnd == IsEvent("end") /\ E.ok /\ got = pairs /\ UNCHANGED <<pairs, got>>
Last(k) == pairs[CHOOSE i \in DOMAIN pairs : pairs[i].k = k /\ \A j \in DOMAIN pairs : j > i => pairs[j].k # k].v
TMap == /\ IsEvent("map") /\ E.ok /\ Len(E.r) = Cardinality({pairs[i].k : i \in DOMAIN pairs})
        /\ {E.r[i].k : i \in DOMAIN E.r} = {pairs[i].k : i \in DOMAIN pairs}
        /\ \A i \in DOMAIN E.r : E.r[i].v = Last(E.r[i].k)
        /\ UNCHANGED <<pairs, got>>
TraceNext == TReset \/ TWrite \/ TStash \/ TNew \/ TBegin \/ TPair \/ TEnd \/ TMap
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
