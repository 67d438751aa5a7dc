----------------------------- MODULE AsyncRead -----------------------------
(* Asynchronous reads of a committed vector of N values.  A call carries      *)
(* requests (an index each); underneath, reads of indexes are taken, completed *)
(* in any order and in full or not, and each completed read answers one        *)
(* request for its index.                                                      *)
(*   reqs   request |-> [c, idx, n] : its call, its index, callbacks run       *)
(*   calls  call |-> "in" | "ok" | "refused"                                   *)
(*   fly    index |-> reads under way;  bag <<index, full>> |-> reads completed *)
(*          whose callback has not run                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxReq
VARIABLES reqs, calls, fly, bag, alive
vars == <<reqs, calls, fly, bag, alive>>
Empty == [x \in {} |-> 0]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Add(f, k, d) == (k :> At(f, k) + d) @@ f

Init == reqs = Empty /\ calls = Empty /\ fly = Empty /\ bag = Empty /\ alive = TRUE
Valid(is) == \A i \in 1..Len(is) : is[i] >= 0 /\ is[i] < N
Call(c, ids, is) == /\ alive /\ c \notin DOMAIN calls
                    /\ calls' = (c :> "in") @@ calls
                    /\ reqs' = [r \in {ids[k] : k \in 1..Len(ids)} |->
                                  [c |-> c, idx |-> is[CHOOSE k \in 1..Len(ids) : ids[k] = r], n |-> 0]] @@ reqs
                    /\ UNCHANGED <<fly, bag, alive>>
Asked(i) == Cardinality({r \in DOMAIN reqs : reqs[r].idx = i})
Answered(i) == Cardinality({r \in DOMAIN reqs : reqs[r].idx = i /\ reqs[r].n > 0})
\* reads in progress never exceed what was asked for
Open(i) == \E r \in DOMAIN reqs : reqs[r].idx = i /\ calls[reqs[r].c] # "refused"
Take(i) == /\ i >= 0 /\ i < N /\ alive /\ Open(i)
           /\ At(fly, i) + At(bag, <<i, TRUE>>) + At(bag, <<i, FALSE>>) + Answered(i) < Asked(i)
           /\ fly' = Add(fly, i, 1) /\ UNCHANGED <<reqs, calls, bag, alive>>
Done(i, full) == /\ At(fly, i) > 0
                 /\ fly' = Add(fly, i, -1) /\ bag' = Add(bag, <<i, full>>, 1)
                 /\ UNCHANGED <<reqs, calls, alive>>
\* `good`: the callback received a value (and it is the one stored at the index)
Callback(r, good) == /\ r \in DOMAIN reqs /\ reqs[r].n = 0
                     /\ At(bag, <<reqs[r].idx, good>>) > 0
                     /\ bag' = Add(bag, <<reqs[r].idx, good>>, -1)
                     /\ reqs' = [reqs EXCEPT ![r].n = 1]
                     /\ UNCHANGED <<calls, fly, alive>>
Return(c, ok) == /\ c \in DOMAIN calls /\ calls[c] = "in"
                 /\ calls' = [calls EXCEPT ![c] = IF ok THEN "ok" ELSE "refused"]
                 /\ UNCHANGED <<reqs, fly, bag, alive>>
Quiet == \A k \in DOMAIN fly : fly[k] = 0
Drained == \A k \in DOMAIN bag : bag[k] = 0
AllServed == \A r \in DOMAIN reqs : calls[reqs[r].c] = "ok" => reqs[r].n = 1
Gone == /\ alive /\ \A c \in DOMAIN calls : calls[c] # "in"
        /\ Quiet /\ Drained /\ AllServed
        /\ alive' = FALSE /\ UNCHANGED <<reqs, calls, fly, bag>>

Next == \/ \E c \in 1..MaxReq, i, j \in 0..N-1 : /\ Cardinality(DOMAIN reqs) + 2 <= MaxReq
                                                /\ c = Cardinality(DOMAIN calls) + 1
                                                /\ Call(c, <<2 * c, 2 * c + 1>>, <<i, j>>)
        \/ \E i \in 0..N-1 : Take(i) \/ \E f \in BOOLEAN : Done(i, f)
        \/ \E r \in DOMAIN reqs, g \in BOOLEAN : Callback(r, g)
        \/ \E c \in DOMAIN calls : \/ /\ \A r \in DOMAIN reqs : reqs[r].c = c => Asked(reqs[r].idx) =
                                              At(fly, reqs[r].idx) + At(bag, <<reqs[r].idx, TRUE>>)
                                              + At(bag, <<reqs[r].idx, FALSE>>) + Answered(reqs[r].idx)
                                      /\ Return(c, TRUE)
                                   \/ /\ \A r \in DOMAIN reqs : reqs[r].c = c => reqs[r].n = 0
                                      /\ Return(c, FALSE)
        \/ Gone
Spec == Init /\ [][Next]_vars
OnceEach == \A r \in DOMAIN reqs : reqs[r].n \in {0, 1}
NothingAfterGone == [][~alive => UNCHANGED vars]_vars
ServedWhenGone == ~alive => AllServed /\ Quiet /\ Drained
NonNegative == (\A k \in DOMAIN fly : fly[k] >= 0) /\ (\A k \in DOMAIN bag : bag[k] >= 0)
=============================================================================
