-------------------------- MODULE EpochCrashTrace --------------------------
(* Recorded histories of Janus, killed between operations or during             *)
(* insertions.  An interrupted insertion leaves nothing, a place without         *)
(* document (-7), or itself.                                                     *)
EXTENDS EpochIndex, TraceBase
VARIABLES used, pend, up
tvars == <<evars, used, pend, up, l>>
Hole == -7
None == [op |-> "", k |-> "", v |-> 0, t |-> -1]
TraceInit == Init /\ used = {} /\ pend = None /\ up = FALSE /\ l = 1
TReset == /\ IsEvent("Reset") /\ ins' = Nothing /\ del' = Nothing /\ cache' = Nothing /\ last' = "" /\ want' = Nothing /\ ops' = 0
          /\ used' = {} /\ pend' = None /\ up' = FALSE
TOpen == IsEvent("open") /\ ~up /\ up' = TRUE /\ UNCHANGED <<evars, used, pend>>
TClose == IsEvent("close") /\ up /\ up' = FALSE /\ UNCHANGED <<evars, used, pend>>
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED <<evars, used, pend, up>>
TBegin == IsEvent("begin") /\ up /\ pend' = [op |-> E.op, k |-> E.k, v |-> E.v, t |-> -1] /\ UNCHANGED <<evars, used, up>>
TIssued == IsEvent("issued") /\ E.t \notin used /\ used' = used \cup {E.t} /\ pend' = [pend EXCEPT !.t = E.t] /\ UNCHANGED <<evars, up>>
Ended == E.k = pend.k /\ E.v = pend.v /\ E.t = pend.t /\ E.ev = pend.op /\ pend' = None /\ UNCHANGED <<used, up>>
TIns == IsEvent("ins") /\ Ended /\ Insert(E.k, E.v)
TRem == IsEvent("rem") /\ Ended /\ Remove(E.k, E.v)
TCrash == /\ IsEvent("crash") /\ up /\ up' = FALSE /\ pend' = None /\ UNCHANGED used
          /\ \/ pend.t = -1 /\ UNCHANGED evars
             \/ pend.op = "ins" /\ (Insert(pend.k, Hole) \/ (pend.t # -1 /\ Insert(pend.k, pend.v)))
TSBegin == IsEvent("sbegin") /\ up /\ UNCHANGED <<evars, used, pend, up>>
TSearch == /\ IsEvent("search") /\ up /\ E.n = Len(Ins(E.k)) /\ E.r = SelectSeq(Visible(E.k), LAMBDA x : x # Hole) /\ E.late = 0
           /\ Search(E.k) /\ UNCHANGED <<used, pend, up>>
TraceNext == TReset \/ TOpen \/ TClose \/ TOpenCrash \/ TBegin \/ TIssued \/ TIns \/ TRem \/ TCrash \/ TSBegin \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
