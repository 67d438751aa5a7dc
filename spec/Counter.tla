------------------------------ MODULE Counter ------------------------------
(* Persistent per-keyword counters (RocksDBCounter).  An absent counter is    *)
(* modelled as -1.  `handed` (history) is the set of values handed out by     *)
(* get_and_increment since the key was last set or removed: no value is       *)
(* handed out twice, and the values handed out are consecutive.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, MaxVal

VARIABLES cnt, open, handed
vars == <<cnt, open, handed>>

None == -1
Val(k) == IF k \in DOMAIN cnt THEN cnt[k] ELSE None
H(k) == IF k \in DOMAIN handed THEN handed[k] ELSE {}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> None]

Init == cnt = Empty /\ open = TRUE /\ handed = Empty

Open == ~open /\ open' = TRUE /\ UNCHANGED <<cnt, handed>>
Close == open /\ open' = FALSE /\ UNCHANGED <<cnt, handed>>
Flush == open /\ UNCHANGED vars
Get(k, r) == open /\ r = Val(k) /\ UNCHANGED vars
\* hands out the new value
GetAndIncrement(k, r) == /\ open
                         /\ r = IF Val(k) = None THEN 0 ELSE Val(k) + 1
                         /\ cnt' = Upd(cnt, k, r)
                         /\ handed' = Upd(handed, k, H(k) \cup {r})
                         /\ UNCHANGED open
Increment(k, d) == /\ open
                   /\ cnt' = Upd(cnt, k, IF Val(k) = None THEN d ELSE Val(k) + 1)
                   /\ UNCHANGED <<open, handed>>
Set(k, v) == /\ open
             /\ cnt' = Upd(cnt, k, v)
             /\ handed' = Upd(handed, k, {})
             /\ UNCHANGED open
Remove(k) == /\ open
             /\ cnt' = Drop(cnt, k)
             /\ handed' = Upd(handed, k, {})
             /\ UNCHANGED open

Next == \/ Open \/ Close \/ Flush
        \/ \E k \in Keys : \/ Get(k, Val(k))
                           \/ GetAndIncrement(k, IF Val(k) = None THEN 0 ELSE Val(k) + 1)
                           \/ Remove(k)
                           \/ \E v \in 0..MaxVal : Set(k, v) \/ Increment(k, v)
Spec == Init /\ [][Next]_vars

Bound == \A k \in Keys : Val(k) <= MaxVal
TypeOK == \A k \in Keys : Val(k) >= None
\* the current value is at least every value handed out: the next one is fresh
NeverTwice == \A k \in Keys : \A h \in H(k) : h <= Val(k)
Independent == [][\A k \in Keys : Val(k)' # Val(k) =>
                     \A j \in Keys \ {k} : Val(j)' = Val(j)]_vars
OneStep == [][\A k \in Keys : (Val(k)' > Val(k) /\ H(k)' # H(k) /\ H(k)' # {}) => Val(k)' = Val(k) + 1]_vars
=============================================================================
