------------------------------- MODULE AioGen -------------------------------
(* Schedules for the Linux-AIO scheduler: what the callers do, what the       *)
(* kernel answers, in which order requests complete and results are read,     *)
(* and - with "hold" - answers that reach the scheduler only later.           *)
EXTENDS AioSched, Json
CONSTANT Depth
VARIABLES hist, nid, dq, held
gvars == <<vars, hist, nid, dq, held>>
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>> /\ nid = 1 /\ dq = <<>> /\ held = {}
First(S, n) == {r \in S : Cardinality({x \in S : x < r}) < n}
RngQ(s) == {s[i] : i \in 1..Len(s)}

GSubmit == \E c \in 1..4, kn \in {<<"r", 1>>, <<"w", 1>>, <<"R", 2>>, <<"R", 3>>, <<"R", 5>>}, bad \in {0, 0, 0, 1} :
             /\ \A d \in 1..(c - 1) : d \in DOMAIN calls
             /\ LET ids == nid..(nid + kn[2] - 1) IN
                Submit(c, IF bad = 1 THEN ids \ {nid} ELSE ids)
             /\ nid' = nid + kn[2] /\ UNCHANGED <<dq, held>>
             /\ Log(<<"submit", ToString(c), kn[1], ToString(kn[2])>> \o IF bad = 1 THEN <<"0">> ELSE <<>>)
GTake == \E c \in DOMAIN calls, n \in 1..3 :
             /\ n <= Cardinality(calls[c].pend)
             /\ KTake(c, First(calls[c].pend, n))
             /\ Log(<<"k", ToString(c), ToString(n)>>) /\ UNCHANGED <<nid, dq, held>>
GBusy == \E c \in DOMAIN calls, h \in BOOLEAN :
             /\ KBusy(c)
             /\ held' = IF h THEN held \cup {c} ELSE held
             /\ Log(<<"k", ToString(c), "-11">> \o IF h THEN <<"hold">> ELSE <<>>) /\ UNCHANGED <<nid, dq>>
GRelease == \E c \in held : /\ held' = held \ {c} /\ Log(<<"release", ToString(c)>>)
                            /\ UNCHANGED <<vars, nid, dq>>
GRefuse == \E c \in DOMAIN calls : /\ hist # <<>> /\ Len(hist) % 3 = 0 /\ KRefuse(c)
                                   /\ Log(<<"k", ToString(c), "-5">>) /\ UNCHANGED <<nid, dq, held>>
GSilent == \E c \in DOMAIN calls : (c \notin held /\ Park(c)) \/ Wake(c) \/ Return(c)
GDone == \E r \in kq, how \in {"full", "full", "short", "err", "zero"} :
             KDone(r) /\ dq' = Append(dq, r) /\ Log(<<"done", ToString(r), how>>) /\ UNCHANGED <<nid, held>>
GGet == \E n \in 1..3 : /\ n <= Len(dq)
             /\ LET S == RngQ(SubSeq(dq, 1, n)) IN
                /\ done' = done \ S
                /\ called' = [r \in DOMAIN called |-> IF r \in S THEN called[r] + 1 ELSE called[r]]
             /\ flag' = FALSE /\ dq' = SubSeq(dq, n + 1, Len(dq))
             /\ UNCHANGED <<calls, kq, batch, wst, nid, held>>
             /\ Log(<<"get", ToString(n)>>)
GNone == \E a \in {"0", "-4"} : /\ hist # <<>> /\ hist[Len(hist)][1] # "get" /\ Log(<<"get", a>>)
                                /\ UNCHANGED <<vars, nid, dq, held>>
GWait == /\ calls # Empty /\ WaitCall /\ Log(<<"wait">>) /\ UNCHANGED <<nid, dq, held>>
Pending == \E c \in DOMAIN calls : calls[c].st \in {"in", "busy", "parked"}
\* internal steps first: they are not scheduled
GNext == IF \E c \in DOMAIN calls : ENABLED ((c \notin held /\ Park(c)) \/ Return(c) \/ Wake(c))
         THEN GSilent /\ UNCHANGED <<hist, nid, dq, held>>
         ELSE Len(hist) < Depth /\ (GSubmit \/ GTake \/ GBusy \/ GRelease \/ GRefuse \/ GDone \/ GGet \/ GNone
                                    \/ (Len(hist) > Depth \div 2 /\ GWait))
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
