----------------------------- MODULE ListStore -----------------------------
(* The persistent list store (RockDBListStore).  The stored form is the       *)
(* concatenation of the serialised elements; the model keeps the element      *)
(* sequence, and Get must return exactly it.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Elts, MaxLen
VARIABLES lists, open
vars == <<lists, open>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> <<>>]
Found(k) == k \in DOMAIN lists
Val(k) == IF Found(k) THEN lists[k] ELSE <<>>
Init == lists = Empty /\ open = TRUE
Open == ~open /\ open' = TRUE /\ UNCHANGED lists
Close == open /\ open' = FALSE /\ UNCHANGED lists
Flush == open /\ UNCHANGED vars
Put(k, v) == open /\ lists' = Upd(lists, k, v) /\ UNCHANGED open
Get(k, ok, r) == open /\ ok = Found(k) /\ r = Val(k) /\ UNCHANGED vars
Seqs == UNION {[1..n -> Elts] : n \in 0..MaxLen}
Next == \/ Open \/ Close \/ Flush
        \/ \E k \in Keys : Get(k, Found(k), Val(k)) \/ \E s \in Seqs : Put(k, s)
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in DOMAIN lists : k \in Keys /\ lists[k] \in Seqs
Independent == [][\A k \in Keys : Val(k)' # Val(k) => \A j \in Keys \ {k} : Val(j)' = Val(j)]_vars
NeverForgotten == [][\A k \in Keys : Found(k) => Found(k)']_vars
=============================================================================
