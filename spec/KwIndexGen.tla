----------------------------- MODULE KwIndexGen -----------------------------
(* All small indices: the length of every key's list, and two placements.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NKeys, Lens, Places
VARIABLE hist
GInit == hist = <<>>
GNext == Len(hist) < NKeys /\ \E n \in Lens, p \in Places : hist' = Append(hist, [n |-> n, p |-> p])
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = NKeys => PrintT("@@" \o ToJson(hist))
=============================================================================
