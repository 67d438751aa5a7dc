------------------------------ MODULE Forward ------------------------------
(* Forward privacy.  A location is where one update is stored.  `issued[k]` is *)
(* the sequence of the locations of the updates of keyword k that its next     *)
(* search gives away; `known` the locations the server can derive from the      *)
(* searches made so far; `used` all locations used so far.                      *)
(*                                                                             *)
(* Next (the design) is checked against the properties: locations come from a  *)
(* per-keyword family, numbered; a search of k gives the key of the numbers     *)
(* below the counter (Diana, Sophos) or of one epoch (Janus).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxOps,
          Epochs,      \* TRUE: a new family at each search (Janus)
          OneTooMany   \* TRUE: a wrong variant, whose searches cover one number too many
VARIABLES issued, known, used, epoch, ops
fvars == <<issued, known, used, epoch, ops>>
Nothing == [x \in {} |-> 0]
Val(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Iss(k) == Val(issued, k, <<>>)
Ep(k) == Val(epoch, k, 0)
Range(s) == {s[i] : i \in DOMAIN s}
Init == issued = Nothing /\ known = {} /\ used = {} /\ epoch = Nothing /\ ops = 0
(* the location of the next update of k, and what a search of k lets the server derive *)
Fresh(k) == <<k, Ep(k), Len(Iss(k))>>
Derivable(k) == {<<k, Ep(k), i>> : i \in 0..(Len(Iss(k)) + (IF OneTooMany THEN 1 ELSE 0) - 1)}

Update(k, t) == /\ issued' = Upd(issued, k, Append(Iss(k), t))
                /\ used' = used \cup {t}
                /\ ops' = ops + 1
                /\ UNCHANGED <<known, epoch>>
(* x: what the server derives *)
Search(k, x) == /\ known' = known \cup x
                /\ IF Epochs /\ Len(Iss(k)) > 0
                   THEN issued' = Upd(issued, k, <<>>) /\ epoch' = Upd(epoch, k, Ep(k) + 1)
                   ELSE UNCHANGED <<issued, epoch>>
                /\ UNCHANGED <<used, ops>>
Next == \E k \in Keys : (ops < MaxOps /\ Update(k, Fresh(k))) \/ Search(k, Derivable(k))
Spec == Init /\ [][Next]_fvars

(* an update never goes to a location already used or known *)
ForwardPrivate == [][used' # used => \E t \in used' : used' = used \cup {t} /\ t \notin known /\ t \notin used]_fvars
OneEach == [][ops' > ops => used' # used]_fvars
(* a search gives away exactly the updates made so far for its keyword *)
ExactLeak == [][\A k \in Keys : Search(k, Derivable(k)) => Derivable(k) = Range(Iss(k))]_fvars
NoFuture == \A k \in Keys : Fresh(k) \notin known
=============================================================================
