---------------------------- MODULE StaticFault ----------------------------
(* Building and opening a static index on a disk that fails.  An entry lies in  *)
(* the pages of the table, in the stash, and is counted in a database; each of   *)
(* these writes may fail or stop half-way, and so may the reading of the stash.  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Entries,
          IgnoreStash,   \* wrong variant (the repaired defect): a stash that could not be written
          IgnoreCount,   \* wrong variant (the repaired defect): a counter that could not be written
          ShortStash     \* wrong variant (the repaired defect): a stash whose reading failed is taken for a shorter one
VARIABLES given, home, counted, table, stash, ok, refused, pc, loaded, opened
vars == <<given, home, counted, table, stash, ok, refused, pc, loaded, opened>>
Init == /\ given = {} /\ home \in [Entries -> {"table", "stash"}] /\ counted = {} /\ table = {} /\ stash = {} /\ ok = TRUE
        /\ refused = {} /\ pc = "fill" /\ loaded = {} /\ opened = FALSE
Put(e) == /\ pc = "fill" /\ e \notin given /\ given' = given \cup {e}
          /\ \E f \in BOOLEAN : /\ counted' = IF f THEN counted ELSE counted \cup {e}
                                /\ refused' = IF f /\ ~IgnoreCount THEN refused \cup {e} ELSE refused
          /\ UNCHANGED <<home, table, stash, ok, pc, loaded, opened>>
Pages == /\ pc = "fill"
         /\ \E s \in SUBSET {e \in given : home[e] = "table"} :
              /\ table' = s
              /\ IF s = {e \in given : home[e] = "table"} THEN pc' = "stash" /\ UNCHANGED ok ELSE pc' = "failed" /\ ok' = FALSE
         /\ UNCHANGED <<given, home, counted, stash, refused, loaded, opened>>
Stash == /\ pc = "stash"
         /\ \E s \in SUBSET {e \in given : home[e] = "stash"} :
              /\ stash' = s
              /\ IF s = {e \in given : home[e] = "stash"} \/ IgnoreStash THEN pc' = "built" /\ UNCHANGED ok ELSE pc' = "failed" /\ ok' = FALSE
         /\ UNCHANGED <<given, home, counted, table, refused, loaded, opened>>
Open == /\ pc = "built"
        /\ \E s \in SUBSET stash : /\ loaded' = s /\ opened' = (s = stash \/ ShortStash)
        /\ UNCHANGED <<given, home, counted, table, stash, ok, refused, pc>>
Next == (\E e \in Entries : Put(e)) \/ Pages \/ Stash \/ Open
Spec == Init /\ [][Next]_vars
Found(e) == e \in counted /\ e \in table \cup loaded
(* once built and opened without an error, every entry that was accepted is found *)
Complete == opened => \A e \in given \ refused : Found(e)
=============================================================================
