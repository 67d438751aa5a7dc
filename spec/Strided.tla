------------------------------ MODULE Strided ------------------------------
(* How a search splits the n matches of a request among T workers.             *)
(* "stride" (Sophos): worker t takes t, t + T, t + 2T ... below n, walking the  *)
(* token chain by T steps at a time; the worker hands each token to a pool of   *)
(* accessors, whose results go to a pool of reporters, and the search returns   *)
(* after the workers, the accessors and the reporters have been joined, in this *)
(* order.  "range" (Diana): worker t takes a contiguous range, the first        *)
(* n mod T' ranges being one longer, with T' = min(T, n) workers.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxT, Split,
          JoinReporters   \* FALSE: a wrong variant, which returns without waiting for the reporters
VARIABLES n, t, next, access, report, done, returned
vars == <<n, t, next, access, report, done, returned>>
Min(a, b) == IF a < b THEN a ELSE b
Workers == IF Split = "stride" THEN t ELSE Min(t, n)
First(w) == IF Split = "stride" THEN w
            ELSE w * (n \div Workers) + Min(w, n % Workers)
Bound(w) == IF Split = "stride" THEN n ELSE First(w + 1)
Step == IF Split = "stride" THEN t ELSE 1
Bag0 == [i \in 0..(MaxN - 1) |-> 0]
Init == /\ n \in 0..MaxN /\ t \in 1..MaxT
        /\ next = [w \in 0..(MaxT - 1) |-> IF n > 0 /\ w < Workers THEN First(w) ELSE -1]
        /\ access = {} /\ report = {} /\ done = Bag0 /\ returned = FALSE
Work(w) == /\ next[w] >= 0
           /\ IF next[w] < Bound(w)
              THEN access' = access \cup {<<next[w], w>>} /\ next' = [next EXCEPT ![w] = @ + Step]
              ELSE next' = [next EXCEPT ![w] = -1] /\ UNCHANGED access
           /\ UNCHANGED <<n, t, report, done, returned>>
Access(x) == access' = access \ {x} /\ report' = report \cup {x} /\ UNCHANGED <<n, t, next, done, returned>>
Report(x) == report' = report \ {x} /\ done' = [done EXCEPT ![x[1]] = @ + 1] /\ UNCHANGED <<n, t, next, access, returned>>
Return == /\ ~returned /\ \A w \in DOMAIN next : next[w] < 0
          /\ access = {} /\ (JoinReporters => report = {})
          /\ returned' = TRUE /\ UNCHANGED <<n, t, next, access, report, done>>
Next == (\E w \in DOMAIN next : Work(w)) \/ (\E x \in access : Access(x)) \/ (\E x \in report : Report(x)) \/ Return
Spec == Init /\ [][Next]_vars
Once == returned => \A i \in 0..(MaxN - 1) : done[i] = IF i < n THEN 1 ELSE 0
NoneTwice == \A i \in 0..(MaxN - 1) : done[i] <= 1
=============================================================================
