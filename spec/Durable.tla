------------------------------ MODULE Durable ------------------------------
(* The durability contract of the persistent stores (key-value wrapper,       *)
(* counters, list store, committed vector) when the process can be killed at  *)
(* any instant.                                                               *)
(*   acked  the abstract map: every update whose call returned                *)
(*   pend   the update in progress (NoOp if none)                             *)
(* After a kill the map is acked, possibly with the update in progress, and   *)
(* nothing else.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT NoOp
VARIABLES acked, pend, up
dvars == <<acked, pend, up>>

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]

\* the value an operation writes: an increment of an absent counter writes the default
Next1(f, o) == IF o.k \in DOMAIN f THEN f[o.k] + 1 ELSE o.v
Apply(f, o) == CASE o.op = "put" -> Upd(f, o.k, o.v)
                 [] o.op = "remove" -> Drop(f, o.k)
                 [] o.op = "inc" -> Upd(f, o.k, Next1(f, o))

DInit == acked = Empty /\ pend = NoOp /\ up = TRUE

DBegin(o) == up /\ pend = NoOp /\ pend' = o /\ UNCHANGED <<acked, up>>
DEnd == up /\ pend # NoOp /\ acked' = Apply(acked, pend) /\ pend' = NoOp /\ UNCHANGED up
DCrash == /\ up /\ up' = FALSE /\ pend' = NoOp
          /\ \/ acked' = acked
             \/ pend # NoOp /\ acked' = Apply(acked, pend)
DClose == up /\ pend = NoOp /\ up' = FALSE /\ UNCHANGED <<acked, pend>>
DOpen == ~up /\ up' = TRUE /\ UNCHANGED <<acked, pend>>
=============================================================================
