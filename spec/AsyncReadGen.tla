---------------------------- MODULE AsyncReadGen ----------------------------
(* Sequences of reads: single, batched, repeated and out-of-range indexes.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, Depth
VARIABLE hist
Idx == 0..Len0
GInit == hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E i \in Idx : hist' = Append(hist, <<"aget", i>>)
            \/ \E i \in Idx : hist' = Append(hist, <<"get", i>>)
            \/ \E i, j \in Idx : hist' = Append(hist, <<"agets", i, j>>)
            \/ \E i, j, k \in Idx : hist' = Append(hist, <<"agets", i, j, k>>)
            \/ hist' = Append(hist, <<"agets">>)
            \/ hist' = Append(hist, <<"drain">>)
GSpec == GInit /\ [][GNext]_hist
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
