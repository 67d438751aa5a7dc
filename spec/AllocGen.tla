------------------------------ MODULE AllocGen ------------------------------
(* Every small instance (as a multiset of lists), and histories with refused   *)
(* calls.                                                                      *)
EXTENDS Alloc, Json
CONSTANTS NB, Page, Depth, History
VARIABLE hist
Ins == {<<"insert", x, y, c, 0>> : x \in 0..(NB - 1), y \in 0..(NB - 1), c \in (IF History THEN 0 ELSE 1)..Page}
Bad == {<<"insert", 0, 0, Page + 1, 0>>, <<"insert", NB, 0, 1, 0>>, <<"insert", 0, NB, 1, 0>>, <<"insert", 0, 1, 1, -1>>,
        <<"allocate">>, <<"query">>}
Key(x) == x[2] * 1000 + x[3] * 10 + x[4]
GInit == nb = NB /\ page = Page /\ lists = <<>> /\ done = FALSE /\ pu = <<>> /\ pv = <<>> /\ hist = <<>>
GNext == /\ Len(hist) < Depth /\ UNCHANGED avars
         /\ \E a \in Ins \cup (IF History THEN Bad ELSE {}) :
               /\ (~History /\ hist # <<>>) => Key(hist[Len(hist)]) <= Key(a)
               /\ hist' = Append(hist, a)
GSpec == GInit /\ [][GNext]_<<avars, hist>>
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
