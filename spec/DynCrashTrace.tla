--------------------------- MODULE DynCrashTrace ---------------------------
(* Recorded histories of Sophos and Diana with kills.  An insertion that was    *)
(* interrupted leaves nothing, or a position without document, or itself.       *)
EXTENDS DynIndex, TraceBase
VARIABLES used, pend, up,
          rest    \* a bulk request: what it asks for, then (once it has tokens) what the server has not got yet
tvars == <<dvars, used, pend, up, rest, l>>
None == [k |-> "", v |-> 0, t |-> -1]
Tokens(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Tokens(s)) = Len(s)
(* the counters of the keywords of these updates have been advanced *)
Counted(s) == cnt' = [k \in DOMAIN cnt \cup {s[i].k : i \in DOMAIN s} |-> Cnt(k) + Cardinality({i \in DOMAIN s : s[i].k = k})]
TraceInit == Init /\ used = {} /\ pend = None /\ up = FALSE /\ rest = <<>> /\ l = 1
TReset == /\ IsEvent("Reset") /\ cnt' = Nothing /\ srv' = Nothing /\ req' = [k |-> "", n |-> -1] /\ want' = Nothing /\ ins' = 0
          /\ used' = {} /\ pend' = None /\ up' = FALSE /\ rest' = <<>>
TOpen == IsEvent("open") /\ ~up /\ up' = TRUE /\ UNCHANGED <<dvars, used, pend, rest>>
TClose == IsEvent("close") /\ up /\ up' = FALSE /\ UNCHANGED <<dvars, used, pend, rest>>
TOpenCrash == IsEvent("opencrash") /\ ~up /\ UNCHANGED <<dvars, used, pend, up, rest>>
TBegin == IsEvent("begin") /\ up /\ E.op = "ins" /\ pend' = [k |-> E.k, v |-> E.v, t |-> -1] /\ UNCHANGED <<dvars, used, up, rest>>
(* the update is made: its place is taken, whatever happens next *)
TIssued == IsEvent("issued") /\ E.t \notin used /\ used' = used \cup {E.t} /\ pend' = [pend EXCEPT !.t = E.t] /\ UNCHANGED <<dvars, up, rest>>
TIns == IsEvent("ins") /\ rest = <<>> /\ E.k = pend.k /\ E.v = pend.v /\ E.t = pend.t /\ Insert(E.k, E.v) /\ pend' = None /\ UNCHANGED <<used, up, rest>>
TBBegin == /\ IsEvent("bbegin") /\ up /\ rest = <<>> /\ rest' = [i \in DOMAIN E.k |-> [k |-> E.k[i], v |-> E.v[i], t |-> -1]]
           /\ UNCHANGED <<dvars, used, pend, up>>
TBIssued == /\ IsEvent("bissued") /\ Len(E.t) = Len(rest) /\ Distinct(E.t) /\ Tokens(E.t) \cap used = {}
            /\ used' = used \cup Tokens(E.t) /\ rest' = [i \in DOMAIN rest |-> [rest[i] EXCEPT !.t = E.t[i]]]
            /\ UNCHANGED <<dvars, pend, up>>
TBIns == /\ IsEvent("ins") /\ rest # <<>> /\ rest[1] = [k |-> E.k, v |-> E.v, t |-> E.t] /\ Insert(E.k, E.v)
         /\ rest' = Tail(rest) /\ UNCHANGED <<used, pend, up>>
Hole(k) == cnt' = Upd(cnt, k, Cnt(k) + 1) /\ UNCHANGED <<srv, req, want, ins>>
(* killed inside a bulk request: some of its first counters were advanced; when it had its tokens, all of them *)
BulkCrash == IF rest[1].t = -1 THEN \E j \in 0..Len(rest) : Counted(SubSeq(rest, 1, j)) /\ UNCHANGED <<srv, req, want, ins>>
             ELSE Counted(rest) /\ srv' \in {srv, Upd(srv, rest[1].k, Upd(Srv(rest[1].k), Cnt(rest[1].k), rest[1].v))} /\ UNCHANGED <<req, want, ins>>
TCrash == /\ IsEvent("crash") /\ up /\ up' = FALSE /\ pend' = None /\ rest' = <<>> /\ UNCHANGED used
          /\ IF rest # <<>> THEN BulkCrash
             ELSE \/ pend.t = -1 /\ UNCHANGED dvars
                  \/ pend # None /\ (Hole(pend.k) \/ (pend.t # -1 /\ Insert(pend.k, pend.v)))
TSBegin == IsEvent("sbegin") /\ up /\ UNCHANGED <<dvars, used, pend, up, rest>>
Announces == E.n = Announced(E.k) /\ E.late = 0
Matches == ~E.hasvec => E.r = View(E.k, E.n)
Placed == E.haspos => /\ Len(E.p) = Cardinality(Stored(E.k, E.n))
                      /\ \A j \in DOMAIN E.p : E.p[j][1] \in Stored(E.k, E.n) /\ Srv(E.k)[E.p[j][1]] = E.p[j][2]
Vector == E.hasvec => \A i \in 0..(Len(E.vec) - 1) : IF i \in Stored(E.k, E.n) THEN E.vec[i + 1] = Srv(E.k)[i] ELSE i < E.n => E.vec[i + 1] \in {0, 777777}
TSearch == /\ IsEvent("search") /\ up /\ Announces /\ Matches /\ Placed /\ Vector
           /\ Search(E.k, FALSE) /\ UNCHANGED <<used, pend, up, rest>>
TraceNext == TReset \/ TOpen \/ TClose \/ TOpenCrash \/ TBegin \/ TIssued \/ TIns \/ TBBegin \/ TBIssued \/ TBIns \/ TCrash \/ TSBegin \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
