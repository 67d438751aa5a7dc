----------------------------- MODULE AsyncPair -----------------------------
(* One asynchronous lookup in a Tethys store: two reads complete in different *)
(* threads; the one that completes last decodes both buckets.  CountFirst is  *)
(* the defect that was repaired: the completion is counted before the bucket  *)
(* is stored.                                                                 *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT CountFirst
Th == {1, 2}
VARIABLES pc, slot, claimed, counter, stored, saw, calls
vars == <<pc, slot, claimed, counter, stored, saw, calls>>
Init == /\ pc = [t \in Th |-> "claim"] /\ slot = [t \in Th |-> 0] /\ claimed = 0 /\ counter = 0
        /\ stored = {} /\ saw = {} /\ calls = 0
Claim(t) == /\ pc[t] = "claim" /\ claimed' = claimed + 1 /\ slot' = [slot EXCEPT ![t] = claimed + 1]
            /\ counter' = IF CountFirst THEN claimed + 1 ELSE counter
            /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED <<stored, saw, calls>>
Store(t) == /\ pc[t] = "store" /\ stored' = stored \cup {slot[t]}
            /\ pc' = [pc EXCEPT ![t] = IF CountFirst THEN (IF slot[t] = 2 THEN "decode" ELSE "end") ELSE "count"]
            /\ UNCHANGED <<slot, claimed, counter, saw, calls>>
Count(t) == /\ pc[t] = "count" /\ counter' = counter + 1
            /\ pc' = [pc EXCEPT ![t] = IF counter + 1 = 2 THEN "decode" ELSE "end"]
            /\ UNCHANGED <<slot, claimed, stored, saw, calls>>
Decode(t) == /\ pc[t] = "decode" /\ saw' = stored /\ calls' = calls + 1 /\ pc' = [pc EXCEPT ![t] = "end"]
             /\ UNCHANGED <<slot, claimed, counter, stored>>
Next == \E t \in Th : Claim(t) \/ Store(t) \/ Count(t) \/ Decode(t)
Spec == Init /\ [][Next]_vars
Complete == /\ calls > 0 => saw = {1, 2}
            /\ (\A t \in Th : pc[t] = "end") => calls = 1
Once == [][calls' <= 1]_vars
=============================================================================
