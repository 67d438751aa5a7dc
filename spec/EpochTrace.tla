---------------------------- MODULE EpochTrace ----------------------------
EXTENDS EpochIndex, TraceBase
VARIABLES used
tvars == <<evars, used, l>>
TraceInit == Init /\ used = {} /\ l = 1
TReset == /\ IsEvent("Reset")
          /\ ins' = Nothing /\ del' = Nothing /\ cache' = Nothing /\ last' = "" /\ want' = Nothing /\ ops' = 0
          /\ used' = {}
Fresh == E.t \notin used /\ used' = used \cup {E.t}
TIns == IsEvent("ins") /\ Insert(E.k, E.v) /\ Fresh
TRem == IsEvent("rem") /\ Remove(E.k, E.v) /\ Fresh
Reported(r) == E.r = r /\ E.late = 0 /\ E.maxtid <= E.threads
TSearch == IsEvent("search") /\ E.n = Len(Ins(E.k)) /\ Reported(Visible(E.k)) /\ Search(E.k) /\ UNCHANGED used
TAgain == IsEvent("again") /\ E.k = last /\ Again /\ Reported(AgainResult) /\ UNCHANGED used
TReopen == IsEvent("reopen") /\ Reopen /\ UNCHANGED used
TraceNext == TReset \/ TIns \/ TRem \/ TSearch \/ TAgain \/ TReopen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
