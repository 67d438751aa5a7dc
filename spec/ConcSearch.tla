---------------------------- MODULE ConcSearch ----------------------------
(* Insertions and searches made at the same time on one client and one server. *)
(* An insertion takes a position from the client, then stores its document      *)
(* there; a search asks the client how many positions there are, then reads      *)
(* each of them once, in any order.                                             *)
(*                                                                             *)
(* A search must return what was inserted before it began, and nothing that    *)
(* was not begun before it ended, each once.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ins, Srch,      \* operation |-> its keyword
          OneSlot,        \* wrong variant: the pending request is shared by all searches
          AckEarly        \* wrong variant: an insertion returns before it is stored
VARIABLES cnt, srv, pc, pos, n, todo, res, must, slot
vars == <<cnt, srv, pc, pos, n, todo, res, must, slot>>

Regular(m, r, b) == m \subseteq r /\ r \subseteq b

I == DOMAIN Ins
S == DOMAIN Srch
Keys == {Ins[i] : i \in I} \cup {Srch[s] : s \in S}
DoneOf(k) == {i \in I : Ins[i] = k /\ pc[i] = "done"}
BegunOf(k) == {i \in I : Ins[i] = k /\ pc[i] # "idle"}

Init == /\ cnt = [k \in Keys |-> 0] /\ srv = [k \in Keys |-> [x \in {} |-> 0]]
        /\ pc = [o \in I \cup S |-> "idle"] /\ pos = [i \in I |-> -1]
        /\ n = [s \in S |-> 0] /\ todo = [s \in S |-> {}] /\ res = [s \in S |-> {}] /\ must = [s \in S |-> {}]
        /\ slot = [k |-> CHOOSE k \in Keys : TRUE, n |-> 0]

Begin(o) == /\ pc[o] = "idle" /\ pc' = [pc EXCEPT ![o] = "begun"]
            /\ must' = IF o \in S THEN [must EXCEPT ![o] = DoneOf(Srch[o])] ELSE must
            /\ UNCHANGED <<cnt, srv, pos, n, todo, res, slot>>
Take(i) == /\ pc[i] = "begun" /\ pos' = [pos EXCEPT ![i] = cnt[Ins[i]]] /\ cnt' = [cnt EXCEPT ![Ins[i]] = @ + 1]
           /\ pc' = [pc EXCEPT ![i] = IF AckEarly THEN "done" ELSE "taken"]
           /\ UNCHANGED <<srv, n, todo, res, must, slot>>
Store(i) == /\ pc[i] = (IF AckEarly THEN "done" ELSE "taken") /\ pos[i] \notin DOMAIN srv[Ins[i]]
            /\ srv' = [srv EXCEPT ![Ins[i]] = [x \in DOMAIN @ \cup {pos[i]} |-> IF x = pos[i] THEN i ELSE @[x]]]
            /\ pc' = [pc EXCEPT ![i] = "done"]
            /\ UNCHANGED <<cnt, pos, n, todo, res, must, slot>>
Ask(s) == /\ pc[s] = "begun" /\ n' = [n EXCEPT ![s] = cnt[Srch[s]]] /\ slot' = [k |-> Srch[s], n |-> cnt[Srch[s]]]
          /\ pc' = [pc EXCEPT ![s] = "asked"]
          /\ UNCHANGED <<cnt, srv, pos, todo, res, must>>
Send(s) == /\ pc[s] = "asked" /\ todo' = [todo EXCEPT ![s] = 0..((IF OneSlot THEN slot.n ELSE n[s]) - 1)]
           /\ n' = IF OneSlot THEN [n EXCEPT ![s] = slot.n] ELSE n
           /\ pc' = [pc EXCEPT ![s] = "reading"]
           /\ UNCHANGED <<cnt, srv, pos, res, must, slot>>
Read(s, p) == /\ pc[s] = "reading" /\ p \in todo[s] /\ todo' = [todo EXCEPT ![s] = @ \ {p}]
              /\ LET f == srv[IF OneSlot THEN slot.k ELSE Srch[s]] IN
                 res' = IF p \in DOMAIN f THEN [res EXCEPT ![s] = @ \cup {f[p]}] ELSE res
              /\ UNCHANGED <<cnt, srv, pc, pos, n, must, slot>>
Return(s) == /\ pc[s] = "reading" /\ todo[s] = {} /\ pc' = [pc EXCEPT ![s] = "done"]
             /\ UNCHANGED <<cnt, srv, pos, n, todo, res, must, slot>>
Next == \/ \E o \in I \cup S : Begin(o)
        \/ \E i \in I : Take(i) \/ Store(i)
        \/ \E s \in S : Ask(s) \/ Send(s) \/ Return(s) \/ \E p \in 0..Cardinality(I) : Read(s, p)
Spec == Init /\ [][Next]_vars

Returned(s) == pc[s] = "reading" /\ todo[s] = {}
RegularResults == \A s \in S : Returned(s) => Regular(must[s], res[s], BegunOf(Srch[s]))
Announce == \A s \in S : Returned(s) => Cardinality(must[s]) <= n[s] /\ n[s] <= Cardinality(BegunOf(Srch[s]))
(* nothing is lost: once all is quiet, every position has its document *)
AllThere == (\A i \in I : pc[i] = "done") /\ ~AckEarly =>
               \A k \in Keys : {srv[k][p] : p \in DOMAIN srv[k]} = DoneOf(k) /\ cnt[k] = Cardinality(DoneOf(k))
MIns == [i1 |-> "a", i2 |-> "a", i3 |-> "b"]
MSrch == [s1 |-> "a", s2 |-> "b"]
=============================================================================
