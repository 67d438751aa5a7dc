---------------------------- MODULE PlutoBlocks ----------------------------
(* One keyword's list in Pluto: every `Block` documents make a row of the     *)
(* table (which has room for `Room`), the remainder is a list of the store,   *)
(* and a search collects the rows until one is missing, then the remainder.   *)
(* Cut: only the documents of a row are returned, not the padding.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Block, Room, MaxLen, Cut
VARIABLES list, pos, block, rows, rest, phase, res, i
vars == <<list, pos, block, rows, rest, phase, res, i>>
Pad == 0
Fill(b) == b \o [j \in 1..(Room - Len(b)) |-> Pad]
Init == /\ list \in {[j \in 1..n |-> j] : n \in 0..MaxLen} /\ pos = 0 /\ block = <<>> /\ rows = <<>> /\ rest = <<>>
        /\ phase = "insert" /\ res = <<>> /\ i = 1
Take == /\ phase = "insert" /\ pos < Len(list) /\ pos' = pos + 1
        /\ LET b == Append(block, list[pos + 1]) IN
             IF Len(b) = Block THEN rows' = Append(rows, Fill(b)) /\ block' = <<>> ELSE block' = b /\ UNCHANGED rows
        /\ UNCHANGED <<list, rest, phase, res, i>>
Last == /\ phase = "insert" /\ pos = Len(list) /\ rest' = block /\ phase' = "search" /\ UNCHANGED <<list, pos, block, rows, res, i>>
Row == /\ phase = "search" /\ i <= Len(rows) /\ i' = i + 1
       /\ res' = res \o (IF Cut THEN SubSeq(rows[i], 1, Block) ELSE rows[i]) /\ UNCHANGED <<list, pos, block, rows, rest, phase>>
Rest == /\ phase = "search" /\ i > Len(rows) /\ res' = res \o rest /\ phase' = "done" /\ UNCHANGED <<list, pos, block, rows, rest, i>>
Next == Take \/ Last \/ Row \/ Rest
Spec == Init /\ [][Next]_vars
Exact == phase = "done" => res = list
Padded == Len(rest) < Block /\ \A j \in DOMAIN rows : Len(rows[j]) = Room
=============================================================================
