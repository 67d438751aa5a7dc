----------------------------- MODULE MCCuckoo -----------------------------
(* The algorithm of CuckooAllocator::insert, step by step, against Cuckoo.    *)
EXTENDS Cuckoo
CONSTANTS N, MaxId, MaxDepth, Switch
VARIABLES cur, t, d, before
mvars == <<cvars, cur, t, d, before>>
MInit == /\ size = N /\ depth \in 1..MaxDepth /\ h = [x \in {} |-> <<>>] /\ tab = Blank(N) /\ lost = {}
         /\ cur = 0 /\ t = 1 /\ d = 0 /\ before = Blank(N)
Begin == /\ cur = 0 /\ Cardinality(DOMAIN h) < MaxId
         /\ \E a, b \in 0..(N - 1) : h' = Upd(h, Cardinality(DOMAIN h) + 1, <<a, b>>)
         /\ cur' = Cardinality(DOMAIN h) + 1 /\ t' = 1 /\ d' = 0 /\ before' = tab
         /\ UNCHANGED <<size, depth, tab, lost>>
Step == /\ cur # 0 /\ d < depth
        /\ LET s == h[cur][t] % N IN tab' = [tab EXCEPT ![t][s] = cur] /\ cur' = tab[t][s]
        /\ t' = (IF Switch THEN 3 - t ELSE t) /\ d' = d + 1 /\ UNCHANGED <<size, depth, h, lost, before>>
Spill == cur # 0 /\ d = depth /\ lost' = lost \cup {cur} /\ cur' = 0 /\ UNCHANGED <<size, depth, h, tab, t, d, before>>
MNext == Begin \/ Step \/ Spill
MSpec == MInit /\ [][MNext]_mvars
Conserved == cur = 0 => Consistent(h, tab, lost)
Newest == Cardinality(DOMAIN h)
(* what the check demands of the code holds of this algorithm: it spills only when it may *)
MayGiveUp == (cur # 0 /\ d = depth) => ~MustPlace(h, before, Newest)
=============================================================================
