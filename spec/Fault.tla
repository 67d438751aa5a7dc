------------------------------- MODULE Fault -------------------------------
(* The contract of the persistent stores when writes may fail (and the process *)
(* may be killed): an update that reports success took effect, and stays; one  *)
(* that reports failure did or did not, now or after the store is opened       *)
(* again; no other key is concerned.                                           *)
(*   poss   for each key, the values that may be seen                           *)
(*   pend   the update in progress (NoOp if none)                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT NoOp
VARIABLES poss, pend, up, none
fvars == <<poss, pend, up, none>>

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Poss(k) == IF k \in DOMAIN poss THEN poss[k] ELSE {none}
Next1(x, o) == IF x = none THEN o.v ELSE x + 1
\* the values o may leave
Outcome(o) == CASE o.op = "put" -> {o.v} [] o.op = "remove" -> {none} [] o.op = "inc" -> {Next1(x, o) : x \in Poss(o.k)}

FInit == poss = [x \in {} |-> {}] /\ pend = NoOp /\ up = FALSE
FBegin(o) == up /\ pend = NoOp /\ pend' = o /\ UNCHANGED <<poss, up, none>>
Either == IF pend = NoOp THEN poss ELSE Upd(poss, pend.k, Poss(pend.k) \cup Outcome(pend))
FEnd(ok, s) == /\ up /\ pend # NoOp /\ pend' = NoOp /\ UNCHANGED <<up, none>>
               /\ s \subseteq Outcome(pend) /\ s # {}
               /\ poss' = IF ok THEN Upd(poss, pend.k, s) ELSE Either
FDown == up /\ up' = FALSE /\ pend' = NoOp /\ poss' = Either /\ UNCHANGED none
FOpen == ~up /\ up' = TRUE /\ UNCHANGED <<poss, pend, none>>
=============================================================================
