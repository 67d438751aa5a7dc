--------------------------- MODULE ListStoreGen ---------------------------
EXTENDS ListStore, Json
CONSTANTS Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ Close /\ Log([op |-> "close"])
            \/ Open /\ Log([op |-> "open"])
            \/ Flush /\ hist # <<>> /\ hist[Len(hist)].op # "flush" /\ Log([op |-> "flush"])
            \/ \E k \in Keys, s \in Seqs : Put(k, s) /\ Log([op |-> "put", k |-> k, v |-> s])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth /\ open) => PrintT("@@" \o ToJson(hist))
=============================================================================
