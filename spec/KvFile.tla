------------------------------ MODULE KvFile ------------------------------
(* A file of serialised key/list pairs, word by word: key, length, elements.  *)
(* The reader asks whether the file has more before every pair; without Peek  *)
(* it only notices the end after having failed to read (wrong variant).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, MaxLen, MaxPairs, Peek
VARIABLES pairs, file, pos, eof, got, done
vars == <<pairs, file, pos, eof, got, done>>
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init == pairs = <<>> /\ file = <<>> /\ pos = 0 /\ eof = FALSE /\ got = <<>> /\ done = FALSE
Write(k, v) == /\ pos = 0 /\ Len(pairs) < MaxPairs /\ pairs' = Append(pairs, <<k, v>>)
               /\ file' = file \o <<k, Len(v)>> \o v /\ UNCHANGED <<pos, eof, got, done>>
Rewind == pos = 0 /\ pos' = 1 /\ UNCHANGED <<pairs, file, eof, got, done>>
(* reading past the end delivers the last value again and sets eof *)
At(p) == IF p <= Len(file) THEN file[p] ELSE 0
ReadPair == /\ pos > 0 /\ ~done
            /\ IF eof \/ (Peek /\ pos > Len(file)) THEN done' = TRUE /\ UNCHANGED <<pos, eof, got>>
               ELSE LET n == At(pos + 1) IN
                    /\ pos' = pos + 2 + n /\ eof' = (pos + 1 + n > Len(file))
                    /\ got' = Append(got, <<At(pos), [i \in 1..n |-> At(pos + 1 + i)]>>) /\ UNCHANGED done
            /\ UNCHANGED <<pairs, file>>
Next == Rewind \/ ReadPair \/ \E k \in Keys, v \in Seqs : Write(k, v)
Spec == Init /\ [][Next]_vars
Same == done => got = pairs
Inside == ~eof
=============================================================================
