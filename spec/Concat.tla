------------------------------- MODULE Concat -------------------------------
(* Iterators over the concatenation of two ranges: an iterator is a position   *)
(* 0..na+nb; its element is the one at that position of first \o second.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES first, second, its, aliased
cvars == <<first, second, its, aliased>>
All == first \o second
Len2 == Len(All)
Pos(x) == its[x]
Set(x, p) == its' = [y \in DOMAIN its \cup {x} |-> IF y = x THEN p ELSE its[y]]
Begin(x) == Set(x, 0) /\ UNCHANGED <<first, second, aliased>>
End(x) == Set(x, Len2) /\ UNCHANGED <<first, second, aliased>>
At(x, p) == p \in 0..Len2 /\ Set(x, p) /\ UNCHANGED <<first, second, aliased>>
Inc(x) == Pos(x) < Len2 /\ Set(x, Pos(x) + 1) /\ UNCHANGED <<first, second, aliased>>
\* y = x++ : y keeps the old position
Post(x, y) == /\ Pos(x) < Len2 /\ x # y
              /\ its' = [z \in DOMAIN its \cup {x, y} |-> IF z = x THEN Pos(x) + 1 ELSE IF z = y THEN Pos(x) ELSE its[z]]
              /\ UNCHANGED <<first, second, aliased>>
Copy(x, y) == Set(y, Pos(x)) /\ UNCHANGED <<first, second, aliased>>
Deref(x, r) == Pos(x) < Len2 /\ r = All[Pos(x) + 1] /\ UNCHANGED cvars
Equal(x, y, r) == r = (Pos(x) = Pos(y)) /\ UNCHANGED cvars
\* writing through an iterator changes that element (of both ranges if they are the same object)
Write(x, v) == /\ Pos(x) < Len2
               /\ LET p == Pos(x) + 1
                      k == IF p <= Len(first) THEN p ELSE p - Len(first)
                  IN /\ first' = IF aliased \/ p <= Len(first) THEN [first EXCEPT ![k] = v] ELSE first
                     /\ second' = IF aliased \/ p > Len(first) THEN [second EXCEPT ![k] = v] ELSE second
               /\ UNCHANGED <<its, aliased>>
=============================================================================
