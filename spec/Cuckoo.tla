------------------------------ MODULE Cuckoo ------------------------------
(* Cuckoo allocation: two tables of `size` slots; entry i may only be in slot *)
(* h[i][1] of the first or slot h[i][2] of the second.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES size, depth, h, tab, lost
cvars == <<size, depth, h, tab, lost>>
(* tab[1], tab[2]: [0..size-1 -> id or 0]; lost: entries handed back *)
Blank(n) == [i \in {1, 2} |-> [s \in 0..(n - 1) |-> 0]]
Slot(hh, i, t) == hh[i][t]
Held(tb) == {tb[p[1]][p[2]] : p \in ({1, 2} \X (0..(size - 1)))} \ {0}
Times(tb, i) == Cardinality({p \in ({1, 2} \X (0..(size - 1))) : tb[p[1]][p[2]] = i})
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* every entry is in exactly one place: one of its own two slots, or handed back *)
Consistent(hh, tb, ls) ==
    /\ Held(tb) \cup ls = DOMAIN hh /\ Held(tb) \cap ls = {}
    /\ \A i \in Held(tb) : Times(tb, i) = 1 /\ (tb[1][hh[i][1]] = i \/ tb[2][hh[i][2]] = i)
(* the eviction walk that starts in table t with entry i finds a free slot within n steps *)
RECURSIVE Walk(_, _, _, _, _)
Walk(hh, tb, i, t, n) == IF n = 0 THEN FALSE
                         ELSE IF tb[t][hh[i][t]] = 0 THEN TRUE
                         ELSE Walk(hh, [tb EXCEPT ![t][hh[i][t]] = i], tb[t][hh[i][t]], 3 - t, n - 1)
(* the slots connected with those of entry i, among the entries of S *)
RECURSIVE Closure(_, _, _)
Closure(hh, S, N) == LET M == N \cup UNION {{<<1, hh[j][1]>>, <<2, hh[j][2]>>} :
                                             j \in {k \in S : <<1, hh[k][1]>> \in N \/ <<2, hh[k][2]>> \in N}}
                     IN IF M = N THEN N ELSE Closure(hh, S, M)
Overfull(hh, S, i) == LET N == Closure(hh, S, {<<1, hh[i][1]>>, <<2, hh[i][2]>>})
                      IN Cardinality({j \in S : <<1, hh[j][1]>> \in N}) > Cardinality(N)
MustPlace(hh, tb, i) ==
    \/ Walk(hh, tb, i, 1, depth) /\ Walk(hh, tb, i, 2, depth)
    \/ depth >= 4 * (Cardinality(Held(tb)) + 1) /\ ~Overfull(hh, Held(tb) \cup {i}, i)
Insert(i, a, b, r, tb) ==
    LET hh == Upd(h, i, <<a, b>>) IN
    /\ i \notin DOMAIN h /\ a \in 0..(size - 1) /\ b \in 0..(size - 1)
    /\ h' = hh /\ tab' = tb
    /\ r = -1 \/ (r \in DOMAIN hh /\ r \notin lost)
    /\ lost' = IF r = -1 THEN lost ELSE lost \cup {r}
    /\ Consistent(hh, tb, lost')
    /\ MustPlace(hh, tab, i) => r = -1
    /\ UNCHANGED <<size, depth>>
=============================================================================
