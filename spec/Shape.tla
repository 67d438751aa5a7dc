------------------------------- MODULE Shape -------------------------------
(* The size of a built index: as many buckets as the declared number of       *)
(* elements asks for, and in Pluto a row for every full block that many       *)
(* elements could make, the missing ones being filled with dummy rows.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, Block, Bucket, Fill
VARIABLES lists, built
svars == <<lists, built>>
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Full(_)
Full(s) == IF s = <<>> THEN 0 ELSE (Head(s) \div Block) + Full(Tail(s))
Rows(n, full) == IF Fill = "dummies" THEN full + (IF full < Ceil(n, Block) THEN Ceil(n, Block) - full ELSE 0)
                 ELSE IF Fill = "nothing" THEN full ELSE full + Ceil(n, Block)
Init == lists = <<>> /\ built = [rows |-> -1, buckets |-> -1]
Insert == /\ built.rows = -1 /\ \E n \in 0..Max : Sum(lists) + n <= Max /\ lists' = Append(lists, n)
          /\ Len(lists) < 4 /\ UNCHANGED built
Build == /\ built.rows = -1 /\ built' = [rows |-> Rows(Max, Full(lists)), buckets |-> Ceil(Max, Bucket)] /\ UNCHANGED lists
Next == Insert \/ Build
Spec == Init /\ [][Next]_svars
(* what is shown does not depend on the lists *)
SizeOnly == built.rows # -1 => built = [rows |-> Ceil(Max, Block), buckets |-> Ceil(Max, Bucket)]
=============================================================================
