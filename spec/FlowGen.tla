------------------------------ MODULE FlowGen ------------------------------
(* Every small graph (as a multiset of edges), or every short history of      *)
(* calls in any order, legal or not.                                          *)
EXTENDS FlowGraph, Json
CONSTANTS NV, MaxCap, Depth, History
VARIABLE hist
Add(k, a, b, c) == <<"add", k, a, b, c>>
Adds == {Add("inner", a, b, c) : a \in 0..(NV - 1), b \in 0..(NV - 1), c \in 1..MaxCap}
        \cup {Add("source", 0, b, c) : b \in 0..(NV - 1), c \in 1..MaxCap}
        \cup {Add("sink", a, 0, c) : a \in 0..(NV - 1), c \in 1..MaxCap}
Bad == {Add("inner", NV, 0, 1), Add("inner", 0, NV, 1), Add("source", 0, NV, 1), Add("sink", NV + 1, 0, 1)}
Calls == {<<"compute">>, <<"pcompute">>, <<"transform">>, <<"total">>, <<"eflow", 0>>, <<"vflow", 0, "in">>,
          <<"vcap", 0, "out">>, <<"move">>}
Key(a) == (CASE a[2] = "inner" -> 0 [] a[2] = "source" -> 1 [] a[2] = "sink" -> 2) * 10000 + a[3] * 1000 + a[4] * 100 + a[5]
GInit == n = NV /\ st = "building" /\ edges = <<>> /\ flow = <<>> /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ UNCHANGED fvars
         /\ IF History THEN \E a \in Adds \cup Bad \cup Calls : hist' = Append(hist, a)
            ELSE \E a \in Adds : /\ (hist # <<>> => Key(hist[Len(hist)]) <= Key(a))
                                 /\ hist' = Append(hist, a)
GSpec == GInit /\ [][GNext]_<<fvars, hist>>
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
