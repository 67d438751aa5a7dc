------------------------------ MODULE DynGen ------------------------------
(* Histories of a dynamic index, as operation sequences for the harness.       *)
EXTENDS DynIndex, Json
CONSTANTS Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E k \in Keys : \/ \E v \in Docs : ins < MaxIns /\ Insert(k, v) /\ Log([op |-> "ins", k |-> k, v |-> v])
                               \/ \E d \in BOOLEAN : Search(k, d) /\ Log([op |-> "search", k |-> k, d |-> d])
                               \/ Forget(k) /\ Cnt(k) > 0 /\ Log([op |-> "forget", k |-> k])
            \/ \E d \in BOOLEAN : Again(d) /\ Log([op |-> "again", d |-> d])
            \/ Reopen /\ hist # <<>> /\ hist[Len(hist)].op # "reopen" /\ Log([op |-> "reopen"])
GSpec == GInit /\ [][GNext]_<<dvars, hist>>
Emit == (Len(hist) = Depth /\ ins > 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
