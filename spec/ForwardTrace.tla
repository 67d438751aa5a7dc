---------------------------- MODULE ForwardTrace ----------------------------
EXTENDS Forward, TraceBase
VARIABLES masks
tvars == <<fvars, masks, l>>
TraceInit == Init /\ masks = {1} /\ l = 1
TReset == /\ IsEvent("Reset")
          /\ issued' = Nothing /\ known' = {} /\ used' = {} /\ epoch' = Nothing /\ ops' = 0
          /\ masks' = {1}
(* a new location; the document hidden under a mask (1: the zero mask) not used before and not readable in the location,
   whose windows, forwards and backwards, are w *)
TUpdate == /\ IsEvent("ins") \/ IsEvent("rem")
           /\ E.t \notin known /\ E.t \notin used
           /\ Update(E.k, E.t)
           /\ E.m # -1 => E.m \notin masks /\ E.m \notin Range(E.w)
           /\ masks' = IF E.m = -1 THEN masks ELSE masks \cup {E.m} \cup Range(E.w)
(* y: what the server can derive beyond the number of entries announced *)
TSearch == /\ IsEvent("search") \/ IsEvent("request")
           /\ Len(E.x) = Len(Iss(E.k)) /\ Range(E.x) = Range(Iss(E.k))
           /\ Range(E.y) \cap used = {}
           /\ Search(E.k, Range(E.x) \cup Range(E.y))
           /\ UNCHANGED masks
TReopen == IsEvent("reopen") /\ UNCHANGED <<fvars, masks>>
TraceNext == TReset \/ TUpdate \/ TSearch \/ TReopen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
