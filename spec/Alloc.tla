------------------------------- MODULE Alloc -------------------------------
(* The Tethys allocator: lists with two buckets each, split between the two    *)
(* buckets and the stash.                                                      *)
(*   nb     number of buckets 0..nb-1      page  capacity of a bucket          *)
(*   lists  sequence of [u, v, len, id]    done  the allocation has been made  *)
(*   pu, pv parts of each list in its first and second bucket                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES nb, page, lists, done, pu, pv
avars == <<nb, page, lists, done, pu, pv>>

Buckets == 0..(nb - 1)
RECURSIVE SumOver(_, _)
SumOver(f, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE x \in I : TRUE IN f[i] + SumOver(f, I \ {i})
LensOf == [i \in DOMAIN lists |-> lists[i].len]
Load(a, b, k) == SumOver(a, {i \in DOMAIN lists : lists[i].u = k}) + SumOver(b, {i \in DOMAIN lists : lists[i].v = k})
StashOf(a, b) == [i \in DOMAIN lists |-> lists[i].len - a[i] - b[i]]
Total(a, b) == SumOver(StashOf(a, b), DOMAIN lists)

\* nothing lost, no bucket overfilled
Sound(a, b) == /\ DOMAIN a = DOMAIN lists /\ DOMAIN b = DOMAIN lists
               /\ \A i \in DOMAIN lists : a[i] >= 0 /\ b[i] >= 0 /\ StashOf(a, b)[i] >= 0
               /\ \A k \in Buckets : Load(a, b, k) <= page
\* buckets that could take over an element of the stash, directly or by moving others: a stashed
\* list may enter its buckets; a list with a part in a reached bucket may move it to its other one
RECURSIVE Reach(_, _, _)
Reach(a, b, R) == LET R2 == R \cup {lists[i].v : i \in {j \in DOMAIN lists : lists[j].u \in R /\ a[j] > 0}}
                              \cup {lists[i].u : i \in {j \in DOMAIN lists : lists[j].v \in R /\ b[j] > 0}}
                  IN IF R2 = R THEN R ELSE Reach(a, b, R2)
Entry(a, b) == UNION {{lists[i].u, lists[i].v} : i \in {j \in DOMAIN lists : StashOf(a, b)[j] > 0}}
Minimal(a, b) == \A k \in Reach(a, b, Entry(a, b)) : Load(a, b, k) = page
\* the same as a formula: the worst excess over all sets of buckets
Excess(K) == SumOver(LensOf, {i \in DOMAIN lists : lists[i].u \in K /\ lists[i].v \in K}) - page * Cardinality(K)
MinStash == LET X == {Excess(K) : K \in SUBSET Buckets} IN CHOOSE x \in X : \A y \in X : y <= x

\* ---- operations
Insert(u, v, len, id, r) ==
  IF done THEN r = "state" /\ UNCHANGED avars
  ELSE IF id = -1 \/ len > page \/ u \notin Buckets \/ v \notin Buckets
       THEN r = "invalid" /\ UNCHANGED avars
       ELSE /\ r = "ok"
            /\ lists' = Append(lists, [u |-> u, v |-> v, len |-> len, id |-> id])
            /\ UNCHANGED <<nb, page, done, pu, pv>>
Allocate(a, b, r) ==
  IF done THEN r = "state" /\ UNCHANGED avars
  ELSE /\ r = "ok" /\ done' = TRUE /\ pu' = a /\ pv' = b
       /\ Sound(a, b)
       /\ UNCHANGED <<nb, page, lists>>
=============================================================================
