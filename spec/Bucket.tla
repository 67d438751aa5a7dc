------------------------------ MODULE Bucket ------------------------------
(* The encoding of one bucket as an observer sees it: parts of lists go in,   *)
(* each within the number of words it was given, and decoding with a key      *)
(* gives exactly the elements of that key's part.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c, size, page, used, parts, full
bvars == <<c, size, page, used, parts, full>>
Share(n, f) == IF f <= c THEN 0 ELSE IF f - c < n THEN f - c ELSE n
Part(v, f, o) == IF o = "in" THEN SubSeq(v, 1, Share(Len(v), f)) ELSE SubSeq(v, Len(v) - Share(Len(v), f) + 1, Len(v))
Upd(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
(* `w` bytes were written for the list v of key k, given f words *)
Encode(k, v, f, o, w) == /\ ~full /\ k \notin DOMAIN parts /\ w >= 0 /\ w <= f * size
                         /\ used' = used + w /\ used' <= page
                         /\ parts' = Upd(parts, k, Part(v, f, o)) /\ UNCHANGED <<c, size, page, full>>
Finish(w) == ~full /\ w = page - used /\ full' = TRUE /\ UNCHANGED <<c, size, page, used, parts>>
Decode(k, r) == full /\ r = (IF k \in DOMAIN parts THEN parts[k] ELSE <<>>) /\ UNCHANGED bvars
=============================================================================
