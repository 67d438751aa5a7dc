-------------------------- MODULE FaultIndexTrace --------------------------
(* Recorded histories of Sophos and Diana on a disk whose writes fail, and      *)
(* which may also be killed.  `late`: keywords whose counter, and positions      *)
(* whose document, may show up when the index is reopened.                       *)
EXTENDS DynIndex, TraceBase
VARIABLES used, pend, up, lateCount, lateStore,
          rest    \* a bulk request: what it asks for, then (once it has tokens) what the server has not got yet
tvars == <<dvars, used, pend, up, lateCount, lateStore, rest, l>>
late == <<lateCount, lateStore>>
None == [k |-> "", v |-> 0, t |-> -1]
Tokens(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Tokens(s)) = Len(s)
(* the counters of the keywords of these updates have been advanced *)
Counted(s) == cnt' = [k \in DOMAIN cnt \cup {s[i].k : i \in DOMAIN s} |-> Cnt(k) + Cardinality({i \in DOMAIN s : s[i].k = k})]
TraceInit == Init /\ used = {} /\ pend = None /\ up = FALSE /\ lateCount = {} /\ lateStore = {} /\ rest = <<>> /\ l = 1
TReset == /\ IsEvent("Reset") /\ cnt' = Nothing /\ srv' = Nothing /\ req' = [k |-> "", n |-> -1] /\ want' = Nothing /\ ins' = 0
          /\ used' = {} /\ pend' = None /\ up' = FALSE /\ lateCount' = {} /\ lateStore' = {} /\ rest' = <<>>
TOpen == /\ IsEvent("open") /\ ~up /\ up' = TRUE
         /\ \E c \in SUBSET lateCount, s \in SUBSET lateStore :
              /\ cnt' = [k \in DOMAIN cnt \cup c |-> IF k \in c THEN Cnt(k) + 1 ELSE cnt[k]]
              /\ srv' = [k \in DOMAIN srv \cup {x.k : x \in s} |->
                           [p \in DOMAIN Srv(k) \cup {x.p : x \in {y \in s : y.k = k}} |->
                               IF p \in DOMAIN Srv(k) THEN Srv(k)[p] ELSE (CHOOSE x \in s : x.k = k /\ x.p = p).v]]
         /\ lateCount' = {} /\ lateStore' = {} /\ UNCHANGED <<req, want, ins, used, pend, rest>>
TOpenFail == IsEvent("openfail") /\ ~up /\ UNCHANGED <<dvars, used, pend, up, late, rest>>
TClose == IsEvent("close") /\ up /\ up' = FALSE /\ UNCHANGED <<dvars, used, pend, late, rest>>
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED <<dvars, used, pend, up, late, rest>>
TBegin == IsEvent("begin") /\ up /\ E.op = "ins" /\ pend' = [k |-> E.k, v |-> E.v, t |-> -1] /\ UNCHANGED <<dvars, used, up, late, rest>>
TIssued == /\ IsEvent("issued") /\ E.t \notin used /\ used' = used \cup {E.t} /\ pend' = [pend EXCEPT !.t = E.t]
           /\ lateCount' = lateCount \ {pend.k} /\ UNCHANGED <<dvars, up, lateStore, rest>>
TIns == IsEvent("ins") /\ rest = <<>> /\ E.k = pend.k /\ E.v = pend.v /\ E.t = pend.t /\ Insert(E.k, E.v) /\ pend' = None /\ UNCHANGED <<used, up, late, rest>>
Hole(k) == cnt' = Upd(cnt, k, Cnt(k) + 1) /\ UNCHANGED <<srv, req, want, ins>>
(* the insertion was refused, by the client (no token yet) or by the server; so is one that is killed *)
Refused == IF pend.t = -1 THEN lateCount' = lateCount \cup {pend.k} /\ UNCHANGED <<dvars, lateStore>>
           ELSE Hole(pend.k) /\ lateStore' = lateStore \cup {[k |-> pend.k, p |-> Cnt(pend.k), v |-> pend.v]} /\ UNCHANGED lateCount
TFailed == IsEvent("failed") /\ up /\ E.op = "ins" /\ pend # None /\ Refused /\ pend' = None /\ UNCHANGED <<used, up, rest>>
TBBegin == /\ IsEvent("bbegin") /\ up /\ rest = <<>> /\ rest' = [i \in DOMAIN E.k |-> [k |-> E.k[i], v |-> E.v[i], t |-> -1]]
           /\ UNCHANGED <<dvars, used, pend, up, late>>
TBIssued == /\ IsEvent("bissued") /\ Len(E.t) = Len(rest) /\ Distinct(E.t) /\ Tokens(E.t) \cap used = {}
            /\ used' = used \cup Tokens(E.t) /\ rest' = [i \in DOMAIN rest |-> [rest[i] EXCEPT !.t = E.t[i]]]
            /\ lateCount' = lateCount \ {rest[i].k : i \in DOMAIN rest}
            /\ UNCHANGED <<dvars, pend, up, lateStore>>
TBIns == /\ IsEvent("ins") /\ rest # <<>> /\ rest[1] = [k |-> E.k, v |-> E.v, t |-> E.t] /\ Insert(E.k, E.v)
         /\ rest' = Tail(rest) /\ UNCHANGED <<used, pend, up, late>>
(* an update of a bulk request is refused by the server *)
TBItem == /\ IsEvent("failed") /\ E.op = "item" /\ rest # <<>> /\ rest[1].t = E.t /\ Hole(rest[1].k)
          /\ lateStore' = lateStore \cup {[k |-> rest[1].k, p |-> Cnt(rest[1].k), v |-> rest[1].v]}
          /\ rest' = Tail(rest) /\ UNCHANGED <<used, pend, up, lateCount>>
(* a bulk request that stops after advancing some counters; the next one may have been written *)
BulkStops == \E j \in 0..Len(rest) :
                /\ Counted(SubSeq(rest, 1, j)) /\ UNCHANGED <<srv, req, want, ins, lateStore>>
                /\ lateCount' = (lateCount \ {rest[i].k : i \in 1..j}) \cup {rest[i].k : i \in {x \in {j + 1} : x <= Len(rest)}}
TBFailed == /\ IsEvent("failed") /\ E.op = "bulk" /\ rest # <<>> /\ rest[1].t = -1 /\ BulkStops
            /\ rest' = <<>> /\ UNCHANGED <<used, pend, up>>
(* killed with updates that the server has not got *)
BulkCrash == IF rest[1].t = -1 THEN BulkStops
             ELSE /\ Counted(rest) /\ UNCHANGED <<srv, req, want, ins, lateCount>>
                  /\ lateStore' = lateStore \cup {[k |-> rest[1].k, p |-> Cnt(rest[1].k), v |-> rest[1].v]}
TCrash == /\ IsEvent("crash") /\ up /\ up' = FALSE /\ pend' = None /\ rest' = <<>> /\ UNCHANGED used
          /\ IF rest # <<>> THEN BulkCrash
             ELSE IF pend = None THEN UNCHANGED <<dvars, late>> ELSE Refused
TSBegin == IsEvent("sbegin") /\ up /\ UNCHANGED <<dvars, used, pend, up, late, rest>>
Announces == E.n = Announced(E.k) /\ E.late = 0
Matches == ~E.hasvec => E.r = View(E.k, E.n)
Placed == E.haspos => /\ Len(E.p) = Cardinality(Stored(E.k, E.n))
                      /\ \A j \in DOMAIN E.p : E.p[j][1] \in Stored(E.k, E.n) /\ Srv(E.k)[E.p[j][1]] = E.p[j][2]
Vector == E.hasvec => \A i \in 0..(Len(E.vec) - 1) : IF i \in Stored(E.k, E.n) THEN E.vec[i + 1] = Srv(E.k)[i] ELSE i < E.n => E.vec[i + 1] \in {0, 777777}
TSearch == /\ IsEvent("search") /\ up /\ Announces /\ Matches /\ Placed /\ Vector
           /\ Search(E.k, FALSE) /\ UNCHANGED <<used, pend, up, late, rest>>
TraceNext == TReset \/ TOpen \/ TOpenFail \/ TClose \/ TOpenCrash \/ TBegin \/ TIssued \/ TIns \/ TBBegin \/ TBIssued \/ TBIns \/ TBItem \/ TBFailed \/ TFailed \/ TCrash \/ TSBegin \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
