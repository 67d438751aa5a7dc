---------------------------- MODULE ConcatTrace ----------------------------
EXTENDS Concat, TraceBase
tvars == <<cvars, l>>
TraceInit == first = <<>> /\ second = <<>> /\ its = [x \in {} |-> 0] /\ aliased = FALSE /\ l = 1
TReset == /\ IsEvent("Reset") /\ first' = E.first /\ second' = IF E.alias = 1 THEN E.first ELSE E.second
          /\ its' = [x \in {} |-> 0] /\ aliased' = (E.alias = 1)
TBegin == IsEvent("begin") /\ Begin(E.x)
TEnd == IsEvent("end") /\ End(E.x)
TAt == IsEvent("at") /\ At(E.x, E.p)
TInc == IsEvent("inc") /\ Inc(E.x)
TPost == IsEvent("post") /\ Post(E.x, E.y)
TCopy == IsEvent("copy") /\ Copy(E.x, E.y)
TDeref == IsEvent("deref") /\ Deref(E.x, E.r)
TWrite == IsEvent("write") /\ Write(E.x, E.v)
TEq == IsEvent("eq") /\ Equal(E.x, E.y, E.r) /\ E.n = ~E.r
\* the whole concatenation, as a loop from begin to end visits it
TLoop == IsEvent("loop") /\ E.r = All /\ UNCHANGED cvars
TraceNext == TReset \/ TBegin \/ TEnd \/ TAt \/ TInc \/ TPost \/ TCopy \/ TDeref \/ TWrite \/ TEq \/ TLoop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
