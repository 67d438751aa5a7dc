------------------------------ MODULE EpochGen ------------------------------
EXTENDS EpochIndex, Json
CONSTANTS Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E k \in Keys : \/ \E v \in Docs : \/ Insert(k, v) /\ Log([op |-> "ins", k |-> k, v |-> v])
                                                  \/ Remove(k, v) /\ Log([op |-> "rem", k |-> k, v |-> v])
                               \/ Search(k) /\ Log([op |-> "search", k |-> k])
            \/ Again /\ Log([op |-> "again"])
            \/ Reopen /\ hist # <<>> /\ hist[Len(hist)].op # "reopen" /\ Log([op |-> "reopen"])
GSpec == GInit /\ [][GNext]_<<evars, hist>>
Emit == (Len(hist) = Depth /\ ops > 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
