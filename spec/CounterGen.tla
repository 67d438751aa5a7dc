---------------------------- MODULE CounterGen ----------------------------
EXTENDS Counter, Json
CONSTANTS Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ Close /\ Log([op |-> "close"])
            \/ Open /\ Log([op |-> "open"])
            \/ Flush /\ hist # <<>> /\ hist[Len(hist)].op # "flush" /\ Log([op |-> "flush"])
            \/ \E k \in Keys :
                \/ Remove(k) /\ Log([op |-> "remove", k |-> k])
                \/ GetAndIncrement(k, IF Val(k) = None THEN 0 ELSE Val(k) + 1) /\ Log([op |-> "gai", k |-> k])
                \/ \E v \in {0, 5} : Set(k, v) /\ Log([op |-> "set", k |-> k, v |-> v])
                \/ \E v \in {0, 7} : Increment(k, v) /\ Log([op |-> "inc", k |-> k, v |-> v])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth /\ open) => PrintT("@@" \o ToJson(hist))
=============================================================================
