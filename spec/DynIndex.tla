------------------------------ MODULE DynIndex ------------------------------
(* A dynamic index made of a client, which counts the insertions of each      *)
(* keyword, and a server, which stores each document at the position it was   *)
(* inserted at.  A search request covers the positions the client counted so  *)
(* far; a deleting search (Diana only) removes the entries it returns; a       *)
(* client may forget a keyword (Diana only), which then starts again from 0.   *)
(*                                                                             *)
(* `want` (ghost) is what a user expects: the documents inserted since the     *)
(* keyword was last forgotten, less those that were returned by a deleting     *)
(* search.                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Keys, Docs, MaxIns,
          CanDelete,       \* Diana
          CoversAll        \* FALSE: a wrong variant, whose requests miss the last position
VARIABLES cnt, srv, req, want, ins
dvars == <<cnt, srv, req, want, ins>>

Nothing == [x \in {} |-> 0]
Val(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Cnt(k) == Val(cnt, k, 0)
Srv(k) == Val(srv, k, Nothing)
Want(k) == Val(want, k, <<>>)
Leq(a, b) == a <= b
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)

(* the documents stored below position n, in the order of their positions *)
Below(f, n) == {i \in DOMAIN f : i < n}
Collect(f, n) == LET at == SetToSortSeq(Below(f, n), LAMBDA a, b : a < b) IN [j \in 1..Len(at) |-> f[at[j]]]
View(k, n) == Sorted(Collect(Srv(k), n))
Stored(k, n) == Below(Srv(k), n)
(* one occurrence of x less *)
RECURSIVE Minus(_, _)
Minus(s, t) == IF t = <<>> \/ s = <<>> THEN s
               ELSE IF Head(s) = Head(t) THEN Minus(Tail(s), Tail(t))
               ELSE IF Head(s) < Head(t) THEN <<Head(s)>> \o Minus(Tail(s), t)
               ELSE Minus(s, Tail(t))

Init == /\ cnt = Nothing /\ srv = Nothing /\ req = [k |-> "", n |-> -1] /\ want = Nothing
        /\ ins = 0

Insert(k, v) == /\ srv' = Upd(srv, k, Upd(Srv(k), Cnt(k), v))
                /\ cnt' = Upd(cnt, k, Cnt(k) + 1)
                /\ want' = Upd(want, k, Sorted(Append(Want(k), v)))
                /\ ins' = ins + 1
                /\ UNCHANGED req

(* a run of insertions under one keyword: documents v, v + 1, ..., v + m - 1 *)
InsertRun(k, v, m) == /\ srv' = Upd(srv, k, [i \in DOMAIN Srv(k) \cup (Cnt(k)..(Cnt(k) + m - 1)) |->
                                               IF i >= Cnt(k) /\ i < Cnt(k) + m THEN v + (i - Cnt(k)) ELSE Srv(k)[i]])
                      /\ cnt' = Upd(cnt, k, Cnt(k) + m)
                      /\ want' = Upd(want, k, Sorted(Want(k) \o [j \in 1..m |-> v + j - 1]))
                      /\ ins' = ins + m
                      /\ UNCHANGED req

Announced(k) == IF CoversAll \/ Cnt(k) = 0 THEN Cnt(k) ELSE Cnt(k) - 1
Delete(k, n) == /\ srv' = Upd(srv, k, [i \in DOMAIN Srv(k) \ (0..(n - 1)) |-> Srv(k)[i]])
                /\ want' = Upd(want, k, Minus(Want(k), Sorted(Collect(Srv(k), IF n < Cnt(k) THEN n ELSE Cnt(k)))))
Run(k, n, del) == IF del THEN Delete(k, n) ELSE UNCHANGED <<srv, want>>
(* result: View(k, n) *)
Request(k) == req' = [k |-> k, n |-> Announced(k)] /\ UNCHANGED <<cnt, srv, want, ins>>
Search(k, del) == /\ CanDelete \/ ~del
                  /\ req' = [k |-> k, n |-> Announced(k)]
                  /\ Run(k, Announced(k), del)
                  /\ UNCHANGED <<cnt, ins>>
Again(del) == /\ req.n >= 0
              /\ CanDelete \/ ~del
              /\ Run(req.k, req.n, del)
              /\ UNCHANGED <<cnt, req, ins>>
Forget(k) == /\ CanDelete
             /\ cnt' = Drop(cnt, k)
             /\ want' = Upd(want, k, <<>>)
             /\ UNCHANGED <<srv, req, ins>>
Reopen == UNCHANGED dvars

Next == \/ \E k \in Keys : \/ \E v \in Docs : ins < MaxIns /\ Insert(k, v)
                           \/ \E v \in Docs : ins + 2 <= MaxIns /\ InsertRun(k, v, 2)
                           \/ \E d \in BOOLEAN : Search(k, d)
                           \/ Forget(k)
        \/ \E d \in BOOLEAN : Again(d)
Spec == Init /\ [][Next]_dvars

(* a search returns exactly what is expected *)
Exact == \A k \in Keys : View(k, Announced(k)) = Want(k)
(* after a deleting search nothing is left; only the keyword searched changes *)
DeletesAll == [][\A k \in Keys : Search(k, TRUE) => View(k, Announced(k))' = <<>>]_dvars
Independent == [][\A k \in Keys : (\E v \in Docs : Insert(k, v)) \/ (\E d \in BOOLEAN : Search(k, d)) \/ Forget(k)
                    => \A j \in Keys \ {k} : View(j, Announced(j))' = View(j, Announced(j))]_dvars
SearchKeeps == [][\A k \in Keys : Search(k, FALSE) => View(k, Announced(k))' = View(k, Announced(k))]_dvars
=============================================================================
