--------------------------- MODULE AsyncReadTrace ---------------------------
EXTENDS AsyncRead, TraceBase
VARIABLES n, tol
tvars == <<vars, l, n, tol>>
TraceInit == Init /\ l = 1 /\ n = 0 /\ tol = FALSE
Keep == UNCHANGED <<n, tol>>
Ok(i) == i >= 0 /\ i < n
TReset == /\ IsEvent("Reset") /\ reqs' = Empty /\ calls' = Empty /\ fly' = Empty /\ bag' = Empty
          /\ alive' = TRUE /\ n' = E.n /\ tol' = (E.err > 0)
TCall == IsEvent("call") /\ Call(E.c, E.ids, E.is) /\ Keep
TTake == IsEvent("take") /\ Ok(E.i) /\ E.exact /\ alive /\ Open(E.i)
         /\ At(fly, E.i) + At(bag, <<E.i, TRUE>>) + At(bag, <<E.i, FALSE>>) + Answered(E.i) < Asked(E.i)
         /\ fly' = Add(fly, E.i, 1) /\ UNCHANGED <<reqs, calls, bag, alive>> /\ Keep
TDone == IsEvent("done") /\ Done(E.i, E.full) /\ Keep
\* v: the position whose value was received, -1 for no value, -2 for something else
TCb == /\ IsEvent("cb")
       /\ E.id \in DOMAIN reqs
       /\ IF E.v = -1 THEN Callback(E.id, FALSE) ELSE E.v = reqs[E.id].idx /\ Callback(E.id, TRUE)
       /\ Keep
TRet == /\ IsEvent("ret")
        /\ LET mine == {r \in DOMAIN reqs : reqs[r].c = E.c} IN
           IF \A r \in mine : Ok(reqs[r].idx)
           \* only a kernel error makes a legal call fail
           THEN E.r = "ok" \/ (tol /\ E.r = "refused")
           ELSE E.r = "refused" /\ \A r \in mine : reqs[r].n = 0
        /\ Return(E.c, E.r = "ok") /\ Keep
TGet == IsEvent("get") /\ (IF Ok(E.i) THEN E.v = E.i ELSE E.v = -3) /\ UNCHANGED vars /\ Keep
TDtor == IsEvent("dtor") /\ alive /\ UNCHANGED vars /\ Keep
TGone == IsEvent("gone") /\ Gone /\ Keep
TraceNext == TReset \/ TCall \/ TTake \/ TDone \/ TCb \/ TRet \/ TGet \/ TDtor \/ TGone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
