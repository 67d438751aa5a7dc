------------------------------- MODULE PoolGen -------------------------------
(* Orders in which the requests of two schedulers are submitted, performed and *)
(* waited for.                                                                 *)
EXTENDS PoolIo, Json
CONSTANT Depth
VARIABLES hist, n
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>> /\ n = 1
S2 == {"1", "2"}
GNext == /\ Len(hist) < Depth
         /\ \/ \E s \in S2 : Create(s) /\ Log(<<"new", s>>) /\ UNCHANGED n
            \/ \E s \in S2, k \in {"r", "w"}, c \in {"0", "0", "1"} : Submit(s, n) /\ Log(<<"submit", s, k, c>>) /\ n' = n + 1
            \/ \E r \in DOMAIN st, how \in {"full", "full", "short", "err"} :
                 Go(r, "queued", "over") /\ running' = [running EXCEPT ![own[r]] = @ - 1] /\ UNCHANGED <<own, ph, n>>
                 /\ Log(<<"perform", ToString(r), how>>)
            \/ \E s \in S2 : WaitCall(s) /\ Log(<<"wait", s>>) /\ UNCHANGED n
            \/ \E s \in S2 : Destroy(s) /\ Log(<<"destroy", s>>) /\ UNCHANGED n
            \* the wait ends by itself: this only tells whether the scenario may go on with s
            \/ \E s \in S2 : WaitRet(s) /\ Log(<<"waited", s>>) /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_<<vars, hist, n>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
