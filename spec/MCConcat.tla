------------------------------ MODULE MCConcat ------------------------------
(* The implementation's representation - which range, and where in it - steps  *)
(* like the position.  Normal = FALSE is the variant that leaves an iterator   *)
(* at the end of the first range (what happens when it is empty).              *)
EXTENDS Concat
CONSTANTS MaxLen, Normal
VARIABLES rep   \* [two, off] for the iterator "i"
vars == <<cvars, rep>>
Fix(r) == IF Normal /\ ~r.two /\ r.off = Len(first) THEN [two |-> TRUE, off |-> 0] ELSE r
Init == /\ first \in UNION {[1..k -> {0}] : k \in 0..MaxLen}
        /\ second \in UNION {[1..k -> {0}] : k \in 0..MaxLen}
        /\ aliased = FALSE /\ its = [x \in {"i"} |-> 0]
        /\ rep = Fix([two |-> FALSE, off |-> 0])
Step == /\ Inc("i")
        /\ LET r == [rep EXCEPT !.off = @ + 1]
           IN rep' = IF ~r.two /\ r.off = Len(first) THEN [two |-> TRUE, off |-> 0] ELSE r
Next == Step
Spec == Init /\ [][Next]_vars
PosOf(r) == IF r.two THEN Len(first) + r.off ELSE r.off
Follows == PosOf(rep) = its["i"]
\* the element read exists in the range pointed to, and the end is recognised
Readable == its["i"] < Len2 => (rep.off < IF rep.two THEN Len(second) ELSE Len(first))
EndKnown == its["i"] = Len2 <=> rep = [two |-> TRUE, off |-> Len(second)]
=============================================================================
