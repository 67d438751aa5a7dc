------------------------------ MODULE FaultLog ------------------------------
(* Why the contract Fault holds: a counter over a log and a memory table, whose *)
(* reads and log writes may fail.  After a failed log write the table takes no   *)
(* update until the store is opened again.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps,
          Ignore,      \* wrong variant: failed writes are not noticed
          Reset,       \* wrong variant: a value that cannot be read counts as absent
          KeepGoing    \* wrong variant: updates after a failed one are appended behind the torn record
VARIABLES log, mem, pc, val, handed, stuck, ops, last, clean
vars == <<log, mem, pc, val, handed, stuck, ops, last, clean>>
Absent == -1
Init == log = <<>> /\ mem = Absent /\ pc = "idle" /\ val = Absent /\ handed = <<>> /\ stuck = FALSE /\ ops = 0 /\ last = Absent /\ clean = TRUE
Start == pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ pc' = "read" /\ UNCHANGED <<log, mem, val, handed, stuck, last, clean>>
Read == pc = "read" /\ val' = mem + 1 /\ pc' = "write" /\ UNCHANGED <<log, mem, handed, stuck, ops, last, clean>>
ReadFails == /\ pc = "read" /\ IF Reset THEN val' = 0 /\ pc' = "write" ELSE pc' = "idle" /\ UNCHANGED val
             /\ UNCHANGED <<log, mem, handed, stuck, ops, last, clean>>
Answer(v) == handed' = Append(handed, v) /\ last' = v /\ clean' = TRUE
Write == /\ pc = "write" /\ (~stuck \/ KeepGoing) /\ log' = Append(log, val) /\ mem' = val /\ Answer(val) /\ pc' = "idle"
         /\ UNCHANGED <<val, stuck, ops>>
\* nothing, a torn record (Absent), or the whole record is written, but an error is returned
WriteFails == /\ pc = "write" /\ ~stuck /\ \E t \in {<<>>, <<-2>>, <<val>>} : log' = log \o t
              /\ IF Ignore THEN mem' = val /\ Answer(val) /\ UNCHANGED stuck ELSE stuck' = TRUE /\ clean' = FALSE /\ UNCHANGED <<mem, handed, last>>
              /\ pc' = "idle" /\ UNCHANGED <<val, ops>>
Refuse == pc = "write" /\ stuck /\ pc' = "idle" /\ UNCHANGED <<log, mem, val, handed, stuck, ops, last, clean>>
\* recovery stops at the first torn record
RECURSIVE Good(_)
Good(s) == IF s = <<>> \/ Head(s) = -2 THEN <<>> ELSE <<Head(s)>> \o Good(Tail(s))
Reopen == /\ pc' = "idle" /\ stuck' = FALSE /\ log' = Good(log)
          /\ mem' = (IF Good(log) = <<>> THEN Absent ELSE Good(log)[Len(Good(log))])
          /\ UNCHANGED <<val, handed, ops, last, clean>>
Next == Start \/ Read \/ ReadFails \/ Write \/ WriteFails \/ Refuse \/ Reopen
Spec == Init /\ [][Next]_vars
(* a value is handed out once *)
Distinct == \A i, j \in DOMAIN handed : handed[i] = handed[j] => i = j
(* what was handed out is there, or one value further that failed *)
There == pc = "idle" => mem >= last /\ (clean => mem = last)
=============================================================================
