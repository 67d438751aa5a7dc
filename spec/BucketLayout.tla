--------------------------- MODULE BucketLayout ---------------------------
(* Two Tethys buckets, word by word.  Every key has a list of n elements and  *)
(* needs n + 2C words: C control words in each of its two buckets (length and *)
(* key) and its elements.  The allocation gives it f1 words in the first and  *)
(* f2 in the second; what is left over goes to the stash.  A part of at most  *)
(* C words cannot hold anything and is not written.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Cap, C, MaxN, WriteEmpty
VARIABLES size, f1, f2
vars == <<size, f1, f2>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Order(S \ {x})
Els(n) == [i \in 1..n |-> i]
(* what one side holds of a list of n elements when it was given f words *)
Share(n, f) == IF f <= C THEN 0 ELSE Min(f - C, n)
Prefix(k) == SubSeq(Els(size[k]), 1, Share(size[k], f1[k]))
Suffix(k) == SubSeq(Els(size[k]), size[k] - Share(size[k], f2[k]) + 1, size[k])
Stashed(k) == SubSeq(Els(size[k]), Len(Prefix(k)) + 1, size[k] - Len(Suffix(k)))
Written(f, s) == f > C /\ (s # <<>> \/ WriteEmpty)
Entry(k, s) == <<<<"len", Len(s)>>, <<"key", k>>>> \o [i \in 1..(C - 2) |-> <<"pad">>] \o [i \in 1..Len(s) |-> <<"val", k, s[i]>>]
RECURSIVE Concat(_, _)
Words(k, i) == IF i = 1 THEN f1[k] ELSE f2[k]
Here(k, i) == IF i = 1 THEN Prefix(k) ELSE Suffix(k)
Concat(ks, i) == IF ks = <<>> THEN <<>>
                 ELSE (IF Written(Words(Head(ks), i), Here(Head(ks), i)) THEN Entry(Head(ks), Here(Head(ks), i)) ELSE <<>>)
                      \o Concat(Tail(ks), i)
Pad(s) == s \o [i \in 1..(Cap - Len(s)) |-> <<"len", 0>>]
Bucket1 == Pad(Concat(Order(Keys), 1))
Bucket2 == Pad(Concat(Order(Keys), 2))
(* reading: stops at the end of the bucket or at a zero length *)
RECURSIVE Decode(_, _, _)
Decode(b, p, k) == IF p > Len(b) \/ b[p][2] = 0 THEN <<>>
                   ELSE IF b[p + 1][2] = k THEN [i \in 1..b[p][2] |-> b[p + C + i - 1][3]]
                   ELSE Decode(b, p + C + b[p][2], k)
Init == /\ size \in [Keys -> 0..MaxN]
        /\ f1 \in [Keys -> 0..Min(Cap, MaxN + 2 * C)] /\ Sum(f1, Keys) <= Cap
        /\ f2 \in [Keys -> 0..Min(Cap, MaxN + 2 * C)] /\ Sum(f2, Keys) <= Cap
        /\ \A k \in Keys : f1[k] + f2[k] <= size[k] + 2 * C
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Fits == Len(Bucket1) = Cap /\ Len(Bucket2) = Cap
Exact == \A k \in Keys : Decode(Bucket1, 1, k) \o Stashed(k) \o Decode(Bucket2, 1, k) = Els(size[k])
=============================================================================
