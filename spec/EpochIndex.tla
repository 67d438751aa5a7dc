----------------------------- MODULE EpochIndex -----------------------------
(* Janus: insertions and deletions of a keyword go to two write-only indices   *)
(* under a meta-keyword that changes at every search (an epoch).  A removal    *)
(* punctures the key of the epoch for its document; a search retrieves and     *)
(* deletes both lists, decrypts the insertions that are not punctured, drops   *)
(* the removed documents from the cached results, and caches the rest.         *)
(*                                                                             *)
(* The key of an epoch is shared among the initial share, made for the number  *)
(* of removals, and one share per removal, numbered from 1: if the numbers are *)
(* not exactly 1..n the key is wrong and everything decrypts to garbage (-1).  *)
(*                                                                             *)
(* `want` (ghost) is what a user expects: the documents inserted and not        *)
(* removed since, except those re-inserted after a removal in the same epoch.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Docs, MaxOps,
          ShortCount,     \* TRUE: the repaired defect: shares are numbered from the last position, not the count
          KeepInsertions  \* TRUE: the repaired defect: a search leaves the insertions in the database
VARIABLES ins, del, cache, last, want, ops
evars == <<ins, del, cache, last, want, ops>>

Nothing == [x \in {} |-> 0]
Val(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ins(k) == Val(ins, k, <<>>)
Del(k) == Val(del, k, <<>>)         \* a sequence of [v |-> document, no |-> number of the share]
Cache(k) == Val(cache, k, <<>>)
Want(k) == Val(want, k, <<>>)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Removed(k) == {Del(k)[i].v : i \in DOMAIN Del(k)}
Wrong(k) == \E i \in DOMAIN Del(k) : Cardinality({j \in DOMAIN Del(k) : Del(k)[j].no = i}) # 1
Without(s, vs) == SelectSeq(s, LAMBDA x : x \notin vs)
Decrypted(k) == [i \in DOMAIN Without(Ins(k), Removed(k)) |->
                    IF Wrong(k) THEN -1 ELSE Without(Ins(k), Removed(k))[i]]
Visible(k) == Sorted(Without(Cache(k), Removed(k)) \o Decrypted(k))
Locations(k) == Len(Ins(k)) + Len(Del(k))

Init == ins = Nothing /\ del = Nothing /\ cache = Nothing /\ last = "" /\ want = Nothing /\ ops = 0

Insert(k, v) == /\ ins' = Upd(ins, k, Append(Ins(k), v))
                /\ want' = IF v \in Removed(k) THEN want ELSE Upd(want, k, Sorted(Append(Want(k), v)))
                /\ ops' = ops + 1
                /\ UNCHANGED <<del, cache, last>>
Number(k) == IF ShortCount THEN (IF Len(Del(k)) = 0 THEN 0 ELSE Len(Del(k)) - 1) + 1 ELSE Len(Del(k)) + 1
Remove(k, v) == /\ del' = Upd(del, k, Append(Del(k), [v |-> v, no |-> Number(k)]))
                /\ want' = Upd(want, k, Without(Want(k), {v}))
                /\ ops' = ops + 1
                /\ UNCHANGED <<ins, cache, last>>
(* result: Visible(k) *)
Search(k) == /\ cache' = Upd(cache, k, Visible(k))
             /\ ins' = Upd(ins, k, <<>>)
             /\ del' = Upd(del, k, <<>>)
             /\ last' = k
             /\ UNCHANGED <<want, ops>>
(* the last request is run again.  Result: the cached documents (and, in the defective variant, garbage) *)
Again == last # "" /\ UNCHANGED evars
AgainResult == IF KeepInsertions THEN Sorted(Cache(last) \o Cache(last)) ELSE Cache(last)
Reopen == UNCHANGED evars

Next == \/ \E k \in Keys : \/ \E v \in Docs : ops < MaxOps /\ (Insert(k, v) \/ Remove(k, v))
                           \/ Search(k)
        \/ Again
Spec == Init /\ [][Next]_evars

Exact == \A k \in Keys : Visible(k) = Want(k)
(* running the last request again gives what it gave: the cache *)
Idempotent == last # "" => AgainResult = Cache(last)
NoGarbage == \A k \in Keys : \A i \in DOMAIN Visible(k) : Visible(k)[i] # -1
SearchKeeps == [][\A k \in Keys : Search(k) => \A j \in Keys : Visible(j)' = Visible(j)]_evars
=============================================================================
