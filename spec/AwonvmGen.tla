----------------------------- MODULE AwonvmGen -----------------------------
(* Every history of up to Depth calls, legal or not, on a vector.            *)
EXTENDS Awonvm, Json
CONSTANTS Depth, WithDirect
VARIABLE hist
Log(o) == hist' = Append(hist, o)
Same == UNCHANGED vars
GInit == Init /\ hist = <<>>
Last(s) == hist # <<>> /\ hist[Len(hist)].op = s
GNext == /\ Len(hist) < Depth
         /\ \/ Open(FALSE, TRUE) /\ Log([op |-> "open"])
            \/ phase # "closed" /\
               \/ \E v \in Vals : /\ IF CanPush(TRUE) THEN Push(v, TRUE) ELSE Same
                                  /\ Log([op |-> "push", v |-> v])
               \/ \E v \in Vals : /\ IF CanAPush THEN APush(v) ELSE Same
                                  /\ Log([op |-> "apush", v |-> v])
               \/ \E n \in {1, 3} : /\ IF phase = "build" THEN Reserve(n) ELSE Same
                                    /\ ~Last("reserve") /\ Log([op |-> "reserve", v |-> ToString(n)])
               \/ ~Last("commit") /\ Commit /\ Log([op |-> "commit"])
               \/ Close /\ Log([op |-> "close"])
               \/ ~Last("move") /\ Move /\ Log([op |-> "move"])
               \/ WithDirect /\ SetDirect(~direct) /\ ~Last("setdirect")
                  /\ Log([op |-> "setdirect", v |-> IF direct THEN "0" ELSE "1"])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (Len(hist) = Depth /\ phase # "closed") => PrintT("@@" \o ToJson(hist))
=============================================================================
