------------------------------ MODULE Blocks ------------------------------
(* Cutting a list into blocks: full blocks, then the remainder (which may be  *)
(* empty).  The number of blocks is what the client remembers, and reading    *)
(* that many blocks gives the list.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Block, MaxLen, Trailing
VARIABLES n, i, cur, blocks, counter
vars == <<n, i, cur, blocks, counter>>
Init == n \in 0..MaxLen /\ i = 0 /\ cur = <<>> /\ blocks = <<>> /\ counter = -1
Step == /\ counter = -1 /\ i < n /\ i' = i + 1
        /\ LET c == Append(cur, i + 1) IN
           IF Len(c) = Block THEN blocks' = Append(blocks, c) /\ cur' = <<>> ELSE cur' = c /\ UNCHANGED blocks
        /\ UNCHANGED <<n, counter>>
Finish == /\ counter = -1 /\ i = n
          /\ blocks' = IF Trailing THEN Append(blocks, cur) ELSE blocks
          /\ counter' = Len(blocks') /\ UNCHANGED <<n, i, cur>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Complete == counter # -1 => Flat(SubSeq(blocks, 1, counter)) = [j \in 1..n |-> j]
Exact == \A b \in DOMAIN blocks : Len(blocks[b]) <= Block
=============================================================================
