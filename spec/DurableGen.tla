----------------------------- MODULE DurableGen -----------------------------
(* Histories of updates, flushes, kills and clean closes for replay.          *)
EXTENDS Durable, Json
CONSTANTS Keys, Depth, Kind
VARIABLE hist
Log(o) == hist' = Append(hist, o)
Last == IF hist = <<>> THEN <<"-">> ELSE hist[Len(hist)]
Do(o) == up /\ pend = NoOp /\ acked' = Apply(acked, o) /\ UNCHANGED <<pend, up>>
GInit == DInit /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ up /\ Last[1] # "open" /\ DClose /\ Log(<<"close">>)
            \/ up /\ DCrash /\ Log(<<"kill">>)
            \/ DOpen /\ Log(<<"open">>)
            \/ up /\ Last[1] \notin {"flush", "open", "-"} /\ UNCHANGED dvars /\ Log(<<"flush">>)
            \/ \E k \in Keys :
                  \/ k \in DOMAIN acked /\ Do([op |-> "remove", k |-> k, v |-> 0]) /\ Log(<<"remove", k>>)
                  \/ Kind = "counter" /\ Do([op |-> "inc", k |-> k, v |-> 0]) /\ Log(<<"inc", k>>)
                  \/ Kind # "counter" /\ Do([op |-> "put", k |-> k, v |-> Len(hist)]) /\ Log(<<"put", k>>)
GSpec == GInit /\ [][GNext]_<<dvars, hist>>
Emit == (Len(hist) = Depth /\ \E i \in 1..Depth : hist[i][1] = "kill") => PrintT("@@" \o ToJson(hist))
=============================================================================
