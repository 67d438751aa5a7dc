------------------------------ MODULE KwIndex ------------------------------
(* A static index, as its users see it: lists are inserted while it is being  *)
(* built, and afterwards looking up a key gives its list (written in sorted   *)
(* order: lists are compared as multisets) and an unknown key gives nothing.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, MaxLen
VARIABLES idx, built
ivars == <<idx, built>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> <<>>]
Val(k) == IF k \in DOMAIN idx THEN idx[k] ELSE <<>>
Init == idx = Empty /\ built = FALSE
Put(k, v) == ~built /\ k \notin DOMAIN idx /\ idx' = Upd(idx, k, v) /\ UNCHANGED built
Build == ~built /\ built' = TRUE /\ UNCHANGED idx
Open == built /\ UNCHANGED ivars
Search(k, r) == built /\ r = Val(k) /\ UNCHANGED ivars
(* the part a search finds without the stash, and the stashed part *)
Part(k, b, s) == /\ built /\ Len(b) + Len(s) = Len(Val(k))
                 /\ \A i \in DOMAIN Val(k) :
                       LET x == Val(k)[i] N(q) == Cardinality({j \in DOMAIN q : q[j] = x}) IN N(b) + N(s) = N(Val(k))
                 /\ UNCHANGED ivars
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Next == Build \/ Open \/ (\E k \in Keys, s \in Seqs : Put(k, s)) \/ \E k \in Keys : Search(k, Val(k))
Spec == Init /\ [][Next]_ivars
Stable == [][built => UNCHANGED ivars]_ivars
=============================================================================
