--------------------------- MODULE ServiceTrace ---------------------------
EXTENDS Service, TraceBase
tvars == <<svars, l>>
TraceInit == Init /\ l = 1
TReset == /\ IsEvent("Reset")
          /\ up' = FALSE /\ owner' = "none" /\ user' = "new" /\ sess' = FALSE /\ flight' = <<>>
          /\ stored' = Nothing /\ holes' = Nothing /\ want' = Nothing /\ ins' = 0 /\ raw' = 0
TStart == IsEvent("start") /\ E.ok /\ Start
TStop == IsEvent("stop") /\ Stop
(* opening succeeds exactly when the directory is the user's, or when this client is the one that sets the server up *)
TOpen == /\ IsEvent("open")
         /\ IF user = "new" THEN E.ok = CanSetup /\ OpenNew ELSE E.ok /\ OpenOld
TClose == IsEvent("close") /\ Close
(* a client with another new directory: refused, since the server has its owner (or is not there) *)
TIntrude == /\ IsEvent("intrude")
            /\ ~E.ok /\ (owner # "none" \/ ~up)
            /\ UNCHANGED svars
(* a run of updates <<keyword, document>>, by single calls or through the open session.  A session needs no silent steps:
   its updates are in flight until it ends *)
TUpd == /\ IsEvent("upd")
        /\ (user = "open") = TRUE
        /\ IF sess THEN flight' = flight \o E.l /\ UNCHANGED <<stored, want, holes>>
           ELSE /\ UNCHANGED flight
                /\ IF up THEN /\ stored' = FoldLeft(LAMBDA f, p : Add(f, p[1], <<p[2]>>), stored, E.l)
                              /\ want' = stored' /\ UNCHANGED holes
                   ELSE UNCHANGED <<stored, want, holes>>
        /\ UNCHANGED <<up, owner, user, sess, ins, raw>>
(* what needs a session does not work without one, and leaves no trace *)
TNoSess == IsEvent("nosess") /\ ~sess /\ ~E.ok /\ UNCHANGED svars
TSOpen == IsEvent("sopen") /\ (IF sess THEN UNCHANGED svars ELSE SOpen)
TSClose == /\ IsEvent("sclose")
           /\ stored' = FoldLeft(LAMBDA f, p : Add(f, p[1], <<p[2]>>), stored, flight) /\ want' = stored'
           /\ sess' = FALSE /\ flight' = <<>>
           /\ UNCHANGED <<up, owner, user, holes, ins, raw>>
(* loading a file *)
TLoad == IsEvent("load") /\ E.ok /\ Load(E.l)
TNoLoad == IsEvent("noload") /\ ~E.ok /\ UNCHANGED svars

Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Within(a, b) == \A x \in ToSet(a) : Occ(a, x) <= Occ(b, x)
(* a search returns everything stored and nothing that was not inserted; the callback saw the same, in the same order *)
Good == /\ E.same
        /\ IF ~up THEN E.r = <<>>
           ELSE IF \A j \in DOMAIN flight : flight[j][1] # E.k THEN E.r = Stored(E.k)
           ELSE /\ Within(Stored(E.k), E.r)
                /\ Within(E.r, Stored(E.k) \o InFlight(E.k))
TSearch == IsEvent("search") /\ user = "open" /\ (Good = TRUE) /\ UNCHANGED svars
(* messages of a stranger.  E.good: the message is one the service may accept; E.ok: it was; E.n: results sent back *)
TRawSetup == IsEvent("rawsetup") /\ E.ok = (CanSetup /\ E.good) /\ RawSetup(E.good)
TRaw == /\ IsEvent("raw")
        /\ E.ok = (up /\ owner # "none" /\ E.good)
        /\ E.n = 0
        /\ RawOther
(* nobody wrote a stream from two threads at a time *)
TDone == IsEvent("done") /\ E.misuse = 0 /\ UNCHANGED svars
TraceNext == TReset \/ TStart \/ TStop \/ TOpen \/ TClose \/ TIntrude \/ TUpd \/ TNoSess \/ TSOpen \/ TSClose \/ TLoad
             \/ TNoLoad \/ TSearch \/ TRawSetup \/ TRaw \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
