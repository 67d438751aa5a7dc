----------------------------- MODULE CuckooGen -----------------------------
(* Insertion sequences into tables of N slots, up to renaming of the slots.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Depth
VARIABLE hist
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
GInit == hist = <<>>
Fresh(f, x) == x <= Max({-1} \cup {hist[i][f] : i \in DOMAIN hist}) + 1
GNext == /\ Len(hist) < Depth
         /\ \E a, b \in 0..(N - 1) : Fresh("a", a) /\ Fresh("b", b) /\ hist' = Append(hist, [a |-> a, b |-> b])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
