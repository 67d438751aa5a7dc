------------------------------ MODULE DynCrash ------------------------------
(* Insertions into a dynamic index whose client and server may be killed at    *)
(* any moment: the client advances its counter, then the server stores the     *)
(* document at the position it was given, then the insertion is acknowledged.  *)
(* A kill between the two leaves a position without document, which searches   *)
(* skip.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxIns, MaxCrash,
          LazyCount,    \* wrong variant: the counter is written back when the client closes
          StoreFirst,   \* wrong variant: the document is stored before the counter is advanced
          LazyStore     \* wrong variant: the server keeps updates in memory
VARIABLES cnt, mem, srv, buf, pend, acked, maybe, next, crashes
vars == <<cnt, mem, srv, buf, pend, acked, maybe, next, crashes>>
None == [k |-> "", v |-> 0, pc |-> "", p |-> 0]
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Count(k) == IF LazyCount THEN mem[k] ELSE cnt[k]

Init == /\ cnt = [k \in Keys |-> 0] /\ mem = cnt /\ srv = [k \in Keys |-> Empty] /\ buf = srv
        /\ pend = None /\ acked = [k \in Keys |-> {}] /\ maybe = acked /\ next = 1 /\ crashes = 0
Begin(k) == /\ pend = None /\ next <= MaxIns /\ pend' = [k |-> k, v |-> next, pc |-> "begun", p |-> Count(k)] /\ next' = next + 1
            /\ UNCHANGED <<cnt, mem, srv, buf, acked, maybe, crashes>>
Advance == /\ pend.pc = (IF StoreFirst THEN "stored" ELSE "begun")
           /\ mem' = [mem EXCEPT ![pend.k] = Count(pend.k) + 1]
           /\ cnt' = IF LazyCount THEN cnt ELSE [cnt EXCEPT ![pend.k] = @ + 1]
           /\ pend' = [pend EXCEPT !.pc = IF StoreFirst THEN "both" ELSE "counted"]
           /\ UNCHANGED <<srv, buf, acked, maybe, next, crashes>>
Store == /\ pend.pc = (IF StoreFirst THEN "begun" ELSE "counted")
         /\ buf' = [buf EXCEPT ![pend.k] = Put(@, pend.p, pend.v)]
         /\ srv' = IF LazyStore THEN srv ELSE [srv EXCEPT ![pend.k] = Put(@, pend.p, pend.v)]
         /\ pend' = [pend EXCEPT !.pc = IF StoreFirst THEN "stored" ELSE "both"]
         /\ UNCHANGED <<cnt, mem, acked, maybe, next, crashes>>
Ack == /\ pend.pc = "both" /\ acked' = [acked EXCEPT ![pend.k] = @ \cup {pend.v}] /\ pend' = None
       /\ UNCHANGED <<cnt, mem, srv, buf, maybe, next, crashes>>
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ maybe' = IF pend = None THEN maybe ELSE [maybe EXCEPT ![pend.k] = @ \cup {pend.v}]
         /\ pend' = None /\ mem' = cnt /\ buf' = srv
         /\ UNCHANGED <<cnt, srv, acked, next>>
Close == /\ pend = None /\ cnt' = mem /\ srv' = buf /\ UNCHANGED <<mem, buf, pend, acked, maybe, next, crashes>>
Next == (\E k \in Keys : Begin(k)) \/ Advance \/ Store \/ Ack \/ Crash \/ Close
Spec == Init /\ [][Next]_vars

View(k) == {buf[k][p] : p \in {q \in DOMAIN buf[k] : q < Count(k)}}
Pending(k) == IF pend.k = k THEN {pend.v} ELSE {}
(* what was acknowledged is found, and nothing else but what was begun *)
Survives == \A k \in Keys : acked[k] \subseteq View(k) /\ View(k) \subseteq acked[k] \cup maybe[k] \cup Pending(k)
(* no position that holds a document is given again *)
NoReuse == pend.pc = (IF StoreFirst THEN "begun" ELSE "counted") => pend.p \notin DOMAIN buf[pend.k]
=============================================================================
