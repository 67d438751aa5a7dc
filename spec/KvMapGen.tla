----------------------------- MODULE KvMapGen -----------------------------
(* All operation sequences of length Depth, for replay on the real store.    *)
EXTENDS KvMap, Json
CONSTANTS Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ Close /\ Log([op |-> "close"])
            \/ Open /\ Log([op |-> "open"])
            \/ Flush /\ DOMAIN mem # {} /\ Log([op |-> "flush"])
            \/ \E k \in Keys : \/ Remove(k) /\ Log([op |-> "remove", k |-> k])
                               \/ \E v \in Vals : Put(k, v) /\ Log([op |-> "put", k |-> k, v |-> v])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth /\ open) => PrintT("@@" \o ToJson(hist))
=============================================================================
