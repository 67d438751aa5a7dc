----------------------------- MODULE CuckooDisk -----------------------------
(* A cuckoo table from its builder to its readers: entries are placed by a    *)
(* bounded eviction walk, the two tables are written to a file, followed by   *)
(* the entries the walks could not place (Keep), and a lookup reads the two   *)
(* slots of its key, then the rest.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, NoKey, Size, Depth, Keep
VARIABLES h, tab, spilled, ins, file
dvars == <<h, tab, spilled, ins, file>>
Slots == 0..(Size - 1)
Blank == [t \in {1, 2} |-> [s \in Slots |-> NoKey]]
Nothing == [tab |-> Blank, rest |-> {}, done |-> FALSE]
Init == /\ h \in [Keys -> Slots \X Slots] /\ tab = Blank /\ spilled = {} /\ ins = {} /\ file = Nothing
RECURSIVE Walk(_, _, _, _)
Walk(tb, k, t, n) == IF k = NoKey \/ n = 0 THEN <<tb, k>>
                     ELSE Walk([tb EXCEPT ![t][h[k][t]] = k], tb[t][h[k][t]], 3 - t, n - 1)
Insert(k) == /\ ~file.done /\ k \notin ins
             /\ LET w == Walk(tab, k, 1, Depth) IN tab' = w[1] /\ spilled' = spilled \cup ({w[2]} \ {NoKey})
             /\ ins' = ins \cup {k} /\ UNCHANGED <<h, file>>
Commit == /\ ~file.done /\ file' = [tab |-> tab, rest |-> IF Keep THEN spilled ELSE {}, done |-> TRUE]
          /\ UNCHANGED <<h, tab, spilled, ins>>
Next == Commit \/ \E k \in Keys : Insert(k)
Spec == Init /\ [][Next]_dvars
Lookup(k) == IF file.tab[1][h[k][1]] = k \/ file.tab[2][h[k][2]] = k THEN k ELSE IF k \in file.rest THEN k ELSE NoKey
Found == file.done => \A k \in ins : Lookup(k) = k
Absent == file.done => \A k \in Keys \ ins : Lookup(k) = NoKey
=============================================================================
