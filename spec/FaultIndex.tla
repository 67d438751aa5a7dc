----------------------------- MODULE FaultIndex -----------------------------
(* Insertions into a dynamic index on a disk whose writes fail.  The client     *)
(* advances its counter, then the server stores the document.  A failed write   *)
(* is reported, and has no effect for the running process, but its data may     *)
(* have reached the disk: it shows after reopening, or not.                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Keys, MaxIns,
          IgnoreStore,   \* wrong variant: the server does not report that it could not store
          IgnoreCount,   \* wrong variant: the client goes on when the counter was not advanced
          CountBack      \* wrong variant: a failed store takes the counter back (in memory and on disk)
VARIABLES cnt, srv, lateCount, lateStore, acked, failed, next
vars == <<cnt, srv, lateCount, lateStore, acked, failed, next>>
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == /\ cnt = [k \in Keys |-> 0] /\ srv = [k \in Keys |-> Empty] /\ lateCount = {} /\ lateStore = {}
        /\ acked = [k \in Keys |-> {}] /\ failed = acked /\ next = 1
Value == next <= MaxIns /\ next' = next + 1
Done(k) == acked' = [acked EXCEPT ![k] = @ \cup {next}] /\ UNCHANGED failed
Refused(k) == failed' = [failed EXCEPT ![k] = @ \cup {next}] /\ UNCHANGED acked
Insert(k) == /\ Value /\ Done(k)
             /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
             /\ srv' = [srv EXCEPT ![k] = Put(@, cnt[k], next)]
             /\ lateCount' = lateCount \ {k}
             /\ UNCHANGED lateStore
CountFails(k) == /\ Value /\ lateCount' = lateCount \cup {k} /\ UNCHANGED <<cnt, lateStore>>
                 /\ IF IgnoreCount THEN Done(k) /\ srv' = [srv EXCEPT ![k] = Put(@, cnt[k], next)] ELSE Refused(k) /\ UNCHANGED srv
StoreFails(k) == /\ Value /\ (IF IgnoreStore THEN Done(k) ELSE Refused(k))
                 /\ cnt' = IF CountBack THEN cnt ELSE [cnt EXCEPT ![k] = @ + 1]
                 /\ lateCount' = lateCount \ {k}
                 /\ lateStore' = lateStore \cup {<<k, cnt[k], next>>}
                 /\ UNCHANGED srv
Reopen == \E c \in SUBSET lateCount, s \in SUBSET lateStore :
             /\ cnt' = [k \in Keys |-> IF k \in c THEN cnt[k] + 1 ELSE cnt[k]]
             \* what was written later prevails over what failed before
             /\ srv' = [k \in Keys |-> [p \in DOMAIN srv[k] \cup {x[2] : x \in {y \in s : y[1] = k}} |->
                                           IF CountBack /\ \E x \in s : x[1] = k /\ x[2] = p THEN (CHOOSE x \in s : x[1] = k /\ x[2] = p)[3]
                                           ELSE IF p \in DOMAIN srv[k] THEN srv[k][p] ELSE (CHOOSE x \in s : x[1] = k /\ x[2] = p)[3]]]
             /\ lateCount' = {} /\ lateStore' = {}
             /\ UNCHANGED <<acked, failed, next>>
Next == Reopen \/ \E k \in Keys : Insert(k) \/ CountFails(k) \/ StoreFails(k)
Spec == Init /\ [][Next]_vars
View(k) == {srv[k][p] : p \in {q \in DOMAIN srv[k] : q < cnt[k]}}
(* what was acknowledged is found, and nothing else but what was tried *)
Survives == \A k \in Keys : acked[k] \subseteq View(k) /\ View(k) \subseteq acked[k] \cup failed[k]
(* no position is used twice *)
Fresh == \A k \in Keys : cnt[k] \notin DOMAIN srv[k]
=============================================================================
