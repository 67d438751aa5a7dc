------------------------------ MODULE MCBench ------------------------------
EXTENDS Bench
\* StopSticks = FALSE: the variant whose stop flag is never set, so that the destructor moves the end
CONSTANTS Bs, MaxNow, StopSticks
VARIABLES firststop, flag
vars == <<bvars, firststop, flag>>
Init == /\ now = 0 /\ live = Zero /\ target = 0 /\ file = <<>> /\ log = "other" /\ sinks = Zero
        /\ firststop = Zero /\ flag = Zero
DoStop(b) == IF StopSticks THEN Stop(b) ELSE live' = [live EXCEPT ![b].stop = now] /\ UNCHANGED <<now, target, file, log, sinks>>
Next == \/ now < MaxNow /\ Tick(1) /\ UNCHANGED <<firststop, flag>>
        \/ \E b \in Bs : b \notin DOMAIN firststop /\ New(b, b) /\ firststop' = Ext(firststop, b, -1) /\ UNCHANGED flag
        \/ \E b \in DOMAIN live : /\ DoStop(b)
                                  /\ firststop' = IF firststop[b] = -1 THEN [firststop EXCEPT ![b] = now] ELSE firststop
                                  /\ UNCHANGED flag
        \/ \E b \in DOMAIN live : SetCount(b, 2) /\ UNCHANGED <<firststop, flag>>
        \/ \E b \in DOMAIN live : /\ Destroy(b)
                                  /\ firststop' = IF firststop[b] = -1 THEN [firststop EXCEPT ![b] = now] ELSE firststop
                                  /\ flag' = Ext(flag, b, <<target, live[b].begin>>)
        \/ Len(file) < 2 /\ SetFile /\ UNCHANGED <<firststop, flag>>
Spec == Init /\ [][Next]_vars
\* every destroyed benchmark has one record, in the file that was the target, with the time of its first stop
RecordsRight == \A b \in DOMAIN flag :
   LET t == flag[b][1] IN
     IF t = 0 THEN \A k \in DOMAIN file : \A i \in DOMAIN file[k] : file[k][i].msg # b
     ELSE /\ \E i \in DOMAIN file[t] : /\ file[t][i].msg = b
                                       /\ file[t][i].time = firststop[b] - flag[b][2]
          /\ \A k \in DOMAIN file : Cardinality({i \in DOMAIN file[k] : file[k][i].msg = b}) = IF k = t THEN 1 ELSE 0
=============================================================================
