-------------------------- MODULE FaultEpochTrace --------------------------
(* Recorded histories of Janus on a disk whose writes fail.  Refused insertions *)
(* leave a place without document (-7), which may turn out to hold it when the   *)
(* index is reopened.  Nothing is said about a keyword whose removal or search    *)
(* was refused, nor about what is done to it later.                              *)
EXTENDS EpochIndex, TraceBase
VARIABLES used, pend, up, lateCount, lateStore, lost
tvars == <<evars, used, pend, up, lateCount, lateStore, lost, l>>
late == <<lateCount, lateStore>>
Hole == -7
None == [op |-> "", k |-> "", v |-> 0, t |-> -1]
TraceInit == Init /\ used = {} /\ pend = None /\ up = FALSE /\ lateCount = {} /\ lateStore = {} /\ lost = {} /\ l = 1
TReset == /\ IsEvent("Reset") /\ ins' = Nothing /\ del' = Nothing /\ cache' = Nothing /\ last' = "" /\ want' = Nothing /\ ops' = 0
          /\ used' = {} /\ pend' = None /\ up' = FALSE /\ lateCount' = {} /\ lateStore' = {} /\ lost' = {}
TOpen == /\ IsEvent("open") /\ ~up /\ up' = TRUE
         /\ \E c \in SUBSET lateCount, s \in SUBSET lateStore :
              ins' = [k \in DOMAIN ins \cup c |->
                        LET q == [i \in DOMAIN Ins(k) |-> IF \E x \in s : x.k = k /\ x.p = i THEN (CHOOSE x \in s : x.k = k /\ x.p = i).v ELSE Ins(k)[i]]
                        IN IF k \in c THEN Append(q, Hole) ELSE q]
         /\ lateCount' = {} /\ lateStore' = {} /\ UNCHANGED <<del, cache, last, want, ops, used, pend, lost>>
TOpenFail == IsEvent("openfail") /\ ~up /\ UNCHANGED <<evars, used, pend, up, late, lost>>
TClose == IsEvent("close") /\ up /\ up' = FALSE /\ UNCHANGED <<evars, used, pend, late, lost>>
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED <<evars, used, pend, up, late, lost>>
TBegin == IsEvent("begin") /\ up /\ pend' = [op |-> E.op, k |-> E.k, v |-> E.v, t |-> -1] /\ UNCHANGED <<evars, used, up, late, lost>>
TIssued == /\ IsEvent("issued") /\ (pend.k \in lost \/ E.t \notin used) /\ used' = used \cup {E.t} /\ pend' = [pend EXCEPT !.t = E.t]
           /\ lateCount' = (IF pend.op = "ins" THEN lateCount \ {pend.k} ELSE lateCount) /\ UNCHANGED <<evars, up, lateStore, lost>>
Ended == E.k = pend.k /\ E.v = pend.v /\ E.t = pend.t /\ E.ev = pend.op /\ pend' = None /\ UNCHANGED <<used, up, late, lost>>
TIns == IsEvent("ins") /\ Ended /\ Insert(E.k, E.v)
TRem == IsEvent("rem") /\ Ended /\ Remove(E.k, E.v)
Refused == IF pend.op = "rem" THEN lost' = lost \cup {pend.k} /\ UNCHANGED <<evars, late>>
           ELSE IF pend.t = -1 THEN lateCount' = lateCount \cup {pend.k} /\ UNCHANGED <<evars, lateStore, lost>>
           ELSE Insert(pend.k, Hole) /\ lateStore' = lateStore \cup {[k |-> pend.k, p |-> Len(Ins(pend.k)) + 1, v |-> pend.v]} /\ UNCHANGED <<lateCount, lost>>
TFailed == IsEvent("failed") /\ up /\ E.op \in {"ins", "rem"} /\ pend # None /\ Refused /\ pend' = None /\ UNCHANGED <<used, up>>
TFailedSearch == IsEvent("failed") /\ up /\ E.op = "search" /\ lost' = lost \cup {E.k} /\ UNCHANGED <<evars, used, pend, up, late>>
TCrash == /\ IsEvent("crash") /\ up /\ up' = FALSE /\ pend' = None /\ UNCHANGED used
          /\ IF pend = None THEN UNCHANGED <<evars, late, lost>> ELSE Refused
(* a search that is killed is over for its keyword *)
TSBegin == IsEvent("sbegin") /\ up /\ UNCHANGED <<evars, used, pend, up, late>>
           /\ lost' = IF l < Len(Trace) /\ Trace[l + 1].ev = "crash" THEN lost \cup {E.k} ELSE lost
TSearch == /\ IsEvent("search") /\ up
           /\ E.k \in lost \/ (E.n = Len(Ins(E.k)) /\ E.r = SelectSeq(Visible(E.k), LAMBDA x : x # Hole) /\ E.late = 0)
           /\ Search(E.k) /\ lateStore' = {x \in lateStore : x.k # E.k} /\ UNCHANGED <<used, pend, up, lost>>
           \* the epoch changes only if something was inserted or removed
           /\ lateCount' = IF Locations(E.k) > 0 THEN lateCount \ {E.k} ELSE lateCount
TraceNext == TReset \/ TOpen \/ TOpenFail \/ TClose \/ TOpenCrash \/ TBegin \/ TIssued \/ TIns \/ TRem \/ TFailed \/ TFailedSearch \/ TCrash \/ TSBegin \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
