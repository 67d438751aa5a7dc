----------------------------- MODULE ConcInsert -----------------------------
(* Insertion requests made concurrently on one client.  Each thread asks for a *)
(* list of insertions (one, or a bulk request); for each of them it reads the   *)
(* counter of the keyword and writes it back incremented:                       *)
(*   "atomic"  in one step,                                                      *)
(*   "split"   in two steps,                                                     *)
(*   "batched" the counters of the whole list are read first, once per keyword,  *)
(*             and written back when all of its positions have been given out.   *)
(* The server then stores the updates in any order, at the places their         *)
(* counters name.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Keys, Bulk, Mode
VARIABLES kw, pc, got, tmp, cnt, srv, sent
vars == <<kw, pc, got, tmp, cnt, srv, sent>>
Lists == UNION {[1..n -> Keys] : n \in 1..Bulk}
Init == /\ kw \in [Threads -> Lists]
        /\ pc = [t \in Threads |-> "take"]
        /\ got = [t \in Threads |-> <<>>]
        /\ tmp = [t \in Threads |-> [k \in Keys |-> -1]]
        /\ cnt = [k \in Keys |-> 0]
        /\ srv = [x \in {} |-> 0]
        /\ sent = [t \in Threads |-> {}]
More(t) == Len(got[t]) < Len(kw[t])
Cur(t) == kw[t][Len(got[t]) + 1]
After(t) == IF Len(got[t]) + 1 < Len(kw[t]) THEN "take" ELSE IF Mode = "batched" THEN "write" ELSE "send"
Take(t) == /\ pc[t] = "take" /\ More(t)
           /\ CASE Mode = "atomic" ->
                     /\ got' = [got EXCEPT ![t] = Append(@, cnt[Cur(t)])]
                     /\ cnt' = [cnt EXCEPT ![Cur(t)] = @ + 1]
                     /\ pc' = [pc EXCEPT ![t] = After(t)] /\ UNCHANGED tmp
                [] Mode = "split" ->
                     /\ tmp' = [tmp EXCEPT ![t][Cur(t)] = cnt[Cur(t)]]
                     /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<got, cnt>>
                [] Mode = "batched" ->
                     \E c \in {IF tmp[t][Cur(t)] = -1 THEN cnt[Cur(t)] ELSE tmp[t][Cur(t)]} :
                         /\ got' = [got EXCEPT ![t] = Append(@, c)]
                         /\ tmp' = [tmp EXCEPT ![t][Cur(t)] = c + 1]
                         /\ pc' = [pc EXCEPT ![t] = After(t)] /\ UNCHANGED cnt
           /\ UNCHANGED <<kw, srv, sent>>
Write(t) == /\ pc[t] = "write"
            /\ IF Mode = "split"
               THEN /\ got' = [got EXCEPT ![t] = Append(@, tmp[t][Cur(t)])]
                    /\ cnt' = [cnt EXCEPT ![Cur(t)] = tmp[t][Cur(t)] + 1]
                    /\ pc' = [pc EXCEPT ![t] = After(t)]
               ELSE /\ cnt' = [k \in Keys |-> IF tmp[t][k] = -1 THEN cnt[k] ELSE tmp[t][k]]
                    /\ pc' = [pc EXCEPT ![t] = "send"] /\ UNCHANGED got
            /\ UNCHANGED <<kw, tmp, srv, sent>>
Send(t) == /\ pc[t] = "send"
           /\ \E i \in DOMAIN got[t] \ sent[t] : \E p \in {<<kw[t][i], got[t][i]>>} :
                 /\ srv' = [x \in DOMAIN srv \cup {p} |-> IF x = p THEN <<t, i>> ELSE srv[x]]
                 /\ sent' = [sent EXCEPT ![t] = @ \cup {i}]
           /\ UNCHANGED <<kw, pc, got, tmp, cnt>>
Next == \E t \in Threads : Take(t) \/ Write(t) \/ Send(t)
Spec == Init /\ [][Next]_vars
Items == {<<t, i>> : t \in Threads, i \in 1..Bulk}
Known(x) == x[2] \in DOMAIN got[x[1]]
Distinct == \A x, y \in Items : (x # y /\ Known(x) /\ Known(y) /\ kw[x[1]][x[2]] = kw[y[1]][y[2]])
                                     => got[x[1]][x[2]] # got[y[1]][y[2]]
(* the list of one request keeps its order under each keyword *)
InOrder == \A t \in Threads : \A i, j \in DOMAIN got[t] : (i < j /\ kw[t][i] = kw[t][j]) => got[t][i] < got[t][j]
(* when all is done, searching each keyword (positions below its counter) gives each document once *)
AllFound == (\A t \in Threads : pc[t] = "send" /\ sent[t] = DOMAIN kw[t]) =>
    \A k \in Keys : {srv[p] : p \in {q \in DOMAIN srv : q[1] = k /\ q[2] < cnt[k]}}
                        = {x \in Items : x[2] \in DOMAIN kw[x[1]] /\ kw[x[1]][x[2]] = k}
=============================================================================
