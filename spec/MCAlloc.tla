------------------------------ MODULE MCAlloc ------------------------------
(* How the allocator works, for every small instance: all lists start in      *)
(* their first bucket; parts move along chains of lists from an overfull      *)
(* bucket to one with room, in any order; what is still too much goes to the   *)
(* stash.  TLC checks that the end loses nothing, overfills nothing, and       *)
(* stashes exactly the minimum, and that Minimal characterises the minimum.    *)
(* Wrong variant: Chains = FALSE, only direct moves.                           *)
EXTENDS Alloc

CONSTANTS NB, MaxLists, Page, Chains

VARIABLES pc
vars == <<avars, pc>>

Kinds == {[u |-> x, v |-> y, len |-> c, id |-> 0] : x \in 0..(NB - 1), y \in 0..(NB - 1), c \in 1..Page}
Key(x) == x.u * 1000 + x.v * 10 + x.len
Instances == UNION {{g \in [1..k -> Kinds] : \A i \in 1..(k - 1) : Key(g[i]) <= Key(g[i + 1])} : k \in 0..MaxLists}

Init == /\ nb = NB /\ page = Page /\ lists \in Instances /\ done = FALSE
        /\ pu = LensOf /\ pv = [i \in DOMAIN lists |-> 0] /\ pc = "move"

\* chains of lists that lead from bucket k to one with room
RECURSIVE Chain(_, _)
Chain(k, seen) ==
  IF Load(pu, pv, k) < page THEN {<<>>}
  ELSE UNION {LET w == IF x[2] THEN lists[x[1]].v ELSE lists[x[1]].u
              IN {<<x>> \o p : p \in Chain(w, seen \cup {w})}
              : x \in {y \in (DOMAIN lists) \X {TRUE, FALSE} :
                        LET from == IF y[2] THEN lists[y[1]].u ELSE lists[y[1]].v
                            to == IF y[2] THEN lists[y[1]].v ELSE lists[y[1]].u
                        IN from = k /\ to \notin seen /\ (IF y[2] THEN pu[y[1]] > 0 ELSE pv[y[1]] > 0)}}
Usable(p) == p # <<>> /\ (Chains \/ Len(p) = 1)
Moves == UNION {{p \in Chain(k, {k}) : Usable(p)} : k \in {x \in Buckets : Load(pu, pv, x) > page}}
Has(p, i, d) == \E k \in DOMAIN p : p[k] = <<i, d>>
Move == /\ pc = "move"
        /\ \E p \in Moves :
             /\ pu' = [i \in DOMAIN lists |-> pu[i] - (IF Has(p, i, TRUE) THEN 1 ELSE 0) + (IF Has(p, i, FALSE) THEN 1 ELSE 0)]
             /\ pv' = [i \in DOMAIN lists |-> pv[i] + (IF Has(p, i, TRUE) THEN 1 ELSE 0) - (IF Has(p, i, FALSE) THEN 1 ELSE 0)]
        /\ UNCHANGED <<nb, page, lists, done, pc>>
EndMoves == pc = "move" /\ Moves = {} /\ pc' = "stash" /\ UNCHANGED avars
\* overfull buckets give up any of their parts
Stash == /\ pc = "stash"
         /\ \E i \in DOMAIN lists :
              \/ /\ pu[i] > 0 /\ Load(pu, pv, lists[i].u) > page
                 /\ pu' = [pu EXCEPT ![i] = @ - 1] /\ UNCHANGED pv
              \/ /\ pv[i] > 0 /\ Load(pu, pv, lists[i].v) > page
                 /\ pv' = [pv EXCEPT ![i] = @ - 1] /\ UNCHANGED pu
         /\ UNCHANGED <<nb, page, lists, done, pc>>
End == /\ pc = "stash" /\ \A k \in Buckets : Load(pu, pv, k) <= page
       /\ pc' = "end" /\ done' = TRUE /\ UNCHANGED <<nb, page, lists, pu, pv>>
Next == Move \/ EndMoves \/ Stash \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingLost == pc = "move" => Total(pu, pv) = 0
EndSound == pc = "end" => Sound(pu, pv)
EndMinimal == pc = "end" => Total(pu, pv) = MinStash
Criterion == pc = "end" => (Minimal(pu, pv) <=> Total(pu, pv) = MinStash)
Ends == <>(pc = "end")
=============================================================================
