------------------------------- MODULE KvMap -------------------------------
(* The persistent key-value wrapper (RockDBWrapper): a map that survives      *)
(* flushing and closing.  The implementation layers a memtable, immutable     *)
(* table files and a log; the model keeps those layers, because what can go   *)
(* wrong (a removal or an overwrite not shadowing an older layer) lives there.*)
(*   mem    unflushed writes, newest value per key (Tomb = removal)           *)
(*   tables flushed layers, oldest first                                      *)
(* and `map` is the abstract map, the contract every read is held to.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals, Tomb, None, MaxTables

VARIABLES map, mem, tables, open
vars == <<map, mem, tables, open>>

Range(f) == {f[x] : x \in DOMAIN f}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> None]

Init == /\ map = Empty
        /\ mem = Empty
        /\ tables = <<>>
        /\ open = TRUE

Open == /\ ~open
        /\ open' = TRUE
        /\ UNCHANGED <<map, mem, tables>>

Close == /\ open
         /\ open' = FALSE
         /\ UNCHANGED <<map, mem, tables>>   \* the log keeps mem

Put(k, v) == /\ open
             /\ map' = Upd(map, k, v)
             /\ mem' = Upd(mem, k, v)
             /\ UNCHANGED <<tables, open>>

Remove(k) == /\ open
             /\ map' = Drop(map, k)
             /\ mem' = Upd(mem, k, Tomb)
             /\ UNCHANGED <<tables, open>>

Flush == /\ open
         /\ tables' = IF DOMAIN mem = {} THEN tables ELSE Append(tables, mem)
         /\ mem' = Empty
         /\ UNCHANGED <<map, open>>

\* background compaction merges two adjacent layers (silent)
Merge(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN b THEN b[x] ELSE a[x]]
Compact == /\ open
           /\ Len(tables) >= 2
           /\ tables' = <<Merge(tables[1], tables[2])>> \o SubSeq(tables, 3, Len(tables))
           /\ UNCHANGED <<map, mem, open>>

\* what a layered read returns
RECURSIVE LookIn(_, _)
LookIn(k, i) == IF i = 0 THEN None
                ELSE IF k \in DOMAIN tables[i]
                     THEN (IF tables[i][k] = Tomb THEN None ELSE tables[i][k])
                     ELSE LookIn(k, i - 1)
Look(k) == IF k \in DOMAIN mem THEN (IF mem[k] = Tomb THEN None ELSE mem[k])
           ELSE LookIn(k, Len(tables))

\* what the contract says
Res(k) == IF k \in DOMAIN map THEN map[k] ELSE None

Get(k, r) == /\ open
             /\ r = Res(k)
             /\ UNCHANGED vars

Next == \/ Open \/ Close \/ Flush \/ Compact
        \/ \E k \in Keys : Remove(k) \/ (\E v \in Vals : Put(k, v)) \/ Get(k, Res(k))
Spec == Init /\ [][Next]_vars

TypeOK == /\ DOMAIN map \subseteq Keys
          /\ Range(map) \subseteq Vals
          /\ Range(mem) \subseteq Vals \cup {Tomb}
ReadsAreMap == \A k \in Keys : Look(k) = Res(k)
Independent == [][\A k \in Keys : Res(k)' # Res(k) =>
                     \A j \in Keys \ {k} : Res(j)' = Res(j)]_vars
Bound == Len(tables) <= MaxTables
=============================================================================
