------------------------------- MODULE Masks -------------------------------
(* The table of an encrypted static index: one bucket per position, written   *)
(* under a mask made of pieces.  What an observer of the table can put        *)
(* together: pieces that are not masked, and pieces masked alike.             *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Keys, Positions, Pieces, Contents, Design
VARIABLES table      (* <<key, position>> -> [c: content, m: pieces of the mask] *)
mvars == <<table>>
Piece(k, p, b) == CASE Design = "position" -> <<k, p, b>>
                    [] Design = "low bits" -> <<k, p % 2, b>>
                    [] Design = "shifted"  -> <<k, p + b>>
                    [] Design = "key free" -> <<p, b>>
                    [] Design = "prefix"   -> IF b < Pieces THEN <<k, p, b>> ELSE <<>>
MaskOf(k, p) == [b \in 1..Pieces |-> Piece(k, p, b)]
Range(f) == {f[x] : x \in DOMAIN f}
Others(t, k, p) == UNION {Range(t[x].m) : x \in (DOMAIN t) \ {<<k, p>>}}
Init == table = [x \in {} |-> <<>>]
(* The action shared with the trace specification; clear is what no mask at all looks like. *)
Put(k, p, c, m) == table' = [x \in DOMAIN table \cup {<<k, p>>} |-> IF x = <<k, p>> THEN [c |-> c, m |-> m] ELSE table[x]]
Fresh(k, p, m, clear) ==
    IF <<k, p>> \in DOMAIN table THEN table[<<k, p>>].m = m
    ELSE /\ clear \notin Range(m) /\ Cardinality(Range(m)) = Len(m)
         /\ Range(m) \cap Others(table, k, p) = {}
Write(k, p, c) == Put(k, p, c, MaskOf(k, p))
Next == \E k \in Keys, p \in Positions, c \in Contents : Write(k, p, c)
Spec == Init /\ [][Next]_mvars
(* no piece is left clear, none serves twice *)
Covered == \A x \in DOMAIN table : <<>> \notin Range(table[x].m)
Independent == \A x, y \in DOMAIN table : x # y => Range(table[x].m) \cap Range(table[y].m) = {}
Inside == \A x \in DOMAIN table : Cardinality(Range(table[x].m)) = Pieces
(* reading a bucket at its own place gives what was written, elsewhere nothing *)
Read(k, p, k2, p2) == IF MaskOf(k, p) = MaskOf(k2, p2) THEN table[<<k, p>>].c ELSE "nothing"
Own == \A x \in DOMAIN table : Read(x[1], x[2], x[1], x[2]) = table[x].c
Elsewhere == \A x \in DOMAIN table : \A k \in Keys, p \in Positions : <<k, p>> # x => Read(x[1], x[2], k, p) = "nothing"
=============================================================================
