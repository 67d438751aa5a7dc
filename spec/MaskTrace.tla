----------------------------- MODULE MaskTrace -----------------------------
EXTENDS Masks, TraceBase
VARIABLES size       (* <<back, page, declared>> -> buckets, room and rows of the databases of this declared size *)
          , here
tvars == <<table, size, here, l>>
TraceInit == Init /\ size = [x \in {} |-> <<>>] /\ here = <<>> /\ l = 1
TReset == /\ IsEvent("Reset") /\ table' = [x \in {} |-> <<>>] /\ size' = [x \in {} |-> <<>>] /\ here' = <<E.back, E.page>>
TEnc == /\ IsEvent("enc") /\ E.w = TRUE /\ Fresh(E.k, E.p, E.m, 0) /\ Put(E.k, E.p, E.c, E.m) /\ UNCHANGED <<size, here>>
Seen(k, p, k2, p2, r) == IF <<k, p>> = <<k2, p2>> THEN r = table[<<k, p>>].c ELSE r = -1
TDec == /\ IsEvent("dec") /\ E.at = TRUE /\ Seen(E.k, E.p, E.k2, E.p2, E.r) /\ Seen(E.k, E.q, E.k2, E.q2, E.s)
        /\ UNCHANGED <<table, size, here>>
TColumns == IsEvent("columns") /\ E.n = 0 /\ UNCHANGED <<table, size, here>>
TDb == /\ IsEvent("db") /\ E.ok = TRUE
       /\ E.read = 0 /\ E.twin = 0 /\ E.size > 0
       /\ \E s \in {<<E.size, E.room, E.rows>>} :
            IF E.n \in DOMAIN size THEN size[E.n] = s /\ UNCHANGED size
            ELSE size' = [x \in DOMAIN size \cup {E.n} |-> IF x = E.n THEN s ELSE size[x]]
       /\ UNCHANGED <<table, here>>
TraceNext == TReset \/ TEnc \/ TDec \/ TColumns \/ TDb
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
