----------------------------- MODULE DynTrace -----------------------------
EXTENDS DynIndex, TraceBase
VARIABLES used, forgot   \* the update tokens seen, and whether some keyword was forgotten
tvars == <<dvars, used, forgot, l>>
Same == UNCHANGED <<used, forgot>>
TraceInit == Init /\ used = {} /\ forgot = FALSE /\ l = 1
TReset == /\ IsEvent("Reset")
          /\ cnt' = Nothing /\ srv' = Nothing /\ req' = [k |-> "", n |-> -1] /\ want' = Nothing /\ ins' = 0
          /\ used' = {} /\ forgot' = FALSE
(* no two updates go to the same place (a forgotten keyword starts again from its first place) *)
TIns == /\ IsEvent("ins") /\ Insert(E.k, E.v)
        /\ E.t \notin used \/ forgot
        /\ used' = used \cup {E.t} /\ UNCHANGED forgot
(* a run of insertions; the tokens of the run are numbered t, t + 1, ... when all of them are new *)
TMany == /\ IsEvent("many") /\ InsertRun(E.k, E.v, E.n)
         /\ E.fresh = E.n \/ forgot
         /\ used \cap (E.t..(E.t + E.n - 1)) = {} \/ forgot
         /\ used' = used \cup (E.t..(E.t + E.n - 1)) /\ UNCHANGED forgot
(* what a search reports: each match once, all of them before it returns, at the position it was inserted at; a worker id
   below the number of threads, and each id from one thread only *)
Reported(k, n) ==
    \E st \in {Stored(k, n)}, f \in {Srv(k)}, pos \in {E.p}, vec \in {E.vec} :   \* bound once
    /\ E.n = n
    /\ E.late = 0
    /\ E.maxtid < E.threads \/ E.maxtid = -1
    /\ E.pertid <= 1
    /\ E.hasvec \/ E.r = View(k, n)
    /\ E.haspos => /\ Len(pos) = Cardinality(st)
                   /\ \A j \in DOMAIN pos : pos[j][1] \in st /\ f[pos[j][1]] = pos[j][2]
                   /\ \A j \in 2..Len(pos) : pos[j - 1][1] < pos[j][1]
    /\ E.hasvec => /\ Len(vec) = (IF n > E.presize THEN n ELSE E.presize)
                   /\ \A i \in 0..(Len(vec) - 1) :
                         IF i \in st THEN vec[i + 1] = f[i]
                         ELSE i < E.presize => vec[i + 1] = 777777
TSearch == IsEvent("search") /\ Search(E.k, E.del) /\ (Reported(E.k, Announced(E.k)) = TRUE) /\ Same
TRequest == IsEvent("request") /\ Request(E.k) /\ E.n = Announced(E.k) /\ Same
TAgain == IsEvent("again") /\ E.k = req.k /\ Again(E.del) /\ (Reported(req.k, req.n) = TRUE) /\ Same
TForget == IsEvent("forget") /\ Forget(E.k) /\ forgot' = TRUE /\ UNCHANGED used
TCount == IsEvent("count") /\ E.r = Cnt(E.k) /\ UNCHANGED dvars /\ Same
TReopen == IsEvent("reopen") /\ Reopen /\ Same
TraceNext == TReset \/ TIns \/ TMany \/ TSearch \/ TRequest \/ TAgain \/ TForget \/ TCount \/ TReopen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
