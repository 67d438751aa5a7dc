----------------------------- MODULE ConcTrace -----------------------------
(* Recorded concurrent insertions and searches.  The documents of one keyword *)
(* are distinct.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceBase
VARIABLES begun, done, opn, places
tvars == <<begun, done, opn, places, l>>
C == INSTANCE ConcSearch WITH Ins <- [x \in {} |-> 0], Srch <- [x \in {} |-> 0], OneSlot <- FALSE, AckEarly <- FALSE, cnt <- 0, srv <- 0,
     pc <- 0, pos <- 0, n <- 0, todo <- 0, res <- 0, must <- 0, slot <- 0
None == [x \in {} |-> {}]
Of(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Set(s) == {s[i] : i \in DOMAIN s}
Once(s) == Cardinality(Set(s)) = Len(s)
TraceInit == begun = None /\ done = None /\ opn = None /\ places = {} /\ l = 1
TReset == IsEvent("Reset") /\ begun' = None /\ done' = None /\ opn' = None /\ places' = {}
TIns == /\ IsEvent("ins") /\ E.v \notin Of(begun, E.k) /\ E.t \notin places /\ opn = None
        /\ begun' = Put(begun, E.k, Of(begun, E.k) \cup {E.v}) /\ done' = Put(done, E.k, Of(done, E.k) \cup {E.v})
        /\ places' = places \cup {E.t} /\ UNCHANGED opn
TIBegin == /\ IsEvent("ibegin") /\ E.v \notin Of(begun, E.k)
           /\ begun' = Put(begun, E.k, Of(begun, E.k) \cup {E.v})
           /\ opn' = Put(opn, E.id, [k |-> E.k, v |-> {E.v}]) /\ UNCHANGED <<done, places>>
Close(i) == opn' = [x \in DOMAIN opn \ {i} |-> opn[x]]
TIEnd == /\ IsEvent("iend") /\ E.id \in DOMAIN opn /\ E.t \notin places
         /\ LET o == opn[E.id] IN done' = Put(done, o.k, Of(done, o.k) \cup o.v)
         /\ Close(E.id) /\ places' = places \cup {E.t} /\ UNCHANGED begun
TSBegin == /\ IsEvent("sbegin") /\ opn' = Put(opn, E.id, [k |-> E.k, v |-> Of(done, E.k)]) /\ UNCHANGED <<begun, done, places>>
TSEnd == /\ IsEvent("send") /\ E.id \in DOMAIN opn
         /\ LET o == opn[E.id] IN
            /\ C!Regular(o.v, Set(E.r), Of(begun, o.k)) /\ Once(E.r)
            /\ Cardinality(o.v) <= E.n /\ E.n <= Cardinality(Of(begun, o.k)) /\ Len(E.r) + E.z <= E.n
         /\ E.late = 0
         /\ Close(E.id) /\ UNCHANGED <<begun, done, places>>
Found == IF E.hasvec THEN SelectSeq(E.vec, LAMBDA x : x # 777777) ELSE E.r
TSearch == /\ IsEvent("search") /\ opn = None /\ Once(Found) /\ Set(Found) = Of(done, E.k) /\ E.n = Cardinality(Of(done, E.k))
           /\ UNCHANGED <<begun, done, opn, places>>
TReopen == IsEvent("reopen") /\ opn = None /\ UNCHANGED <<begun, done, opn, places>>
TraceNext == TReset \/ TIns \/ TIBegin \/ TIEnd \/ TSBegin \/ TSEnd \/ TSearch \/ TReopen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
