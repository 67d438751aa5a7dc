------------------------------ MODULE Service ------------------------------
(* The RPC services of Sophos and Diana: a server process in front of an      *)
(* encrypted index, and the client runner of the user.                        *)
(*                                                                             *)
(* The server is set up once, by the first client that connects; the keys of   *)
(* that client are then the only ones it can be used with.  Updates go through *)
(* single calls, or through an update session: a stream whose messages are in  *)
(* flight (`flight`) until the server applies them; ending the session waits   *)
(* for the last of them.  An update sent while nobody listens is lost (the     *)
(* client says so in its log), but uses up a position of its keyword.          *)
(*                                                                             *)
(* Strangers may send anything.  `junk` counts what they got stored under      *)
(* tokens that no keyword of the user leads to.                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Keys, Docs, MaxIns, MaxRaw,
          Waits,        \* FALSE: a wrong variant, in which the end of a session does not wait for the server
          Once,         \* FALSE: a wrong variant, which accepts a second setup
          Clean,        \* FALSE: a wrong variant, in which a refused setup is done in part
          Skips         \* FALSE: a wrong variant, which reports document 0 for a position where nothing is stored
VARIABLES up,           \* the server process runs
          owner,        \* who set the server up: "none", "user", "other", "broken"
          user,         \* the user's client: "new" (no directory yet), "open", "closed"
          sess, flight, \* the update session of the user, and what it has in flight: a sequence of <<keyword, document>>
          stored,       \* [keyword -> sorted documents]
          holes,        \* [keyword -> number of positions used up by lost updates]
          want,         \* ghost: [keyword -> sorted documents] the user has every reason to find
          ins, raw
svars == <<up, owner, user, sess, flight, stored, holes, want, ins, raw>>

Nothing == [x \in {} |-> <<>>]
Val(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Stored(k) == Val(stored, k, <<>>)
Want(k) == Val(want, k, <<>>)
Add(f, k, s) == Upd(f, k, Sorted(Val(f, k, <<>>) \o s))
AddAll(f, pairs) == FoldLeft(LAMBDA g, p : Add(g, p[1], p[2]), f, pairs)     \* pairs <<keyword, documents>>
InFlight(k) == Sorted([j \in 1..Len(SelectSeq(flight, LAMBDA p : p[1] = k)) |-> SelectSeq(flight, LAMBDA p : p[1] = k)[j][2]])

Init == /\ up = FALSE /\ owner = "none" /\ user = "new" /\ sess = FALSE /\ flight = <<>>
        /\ stored = Nothing /\ holes = Nothing /\ want = Nothing /\ ins = 0 /\ raw = 0

Ready == up /\ owner = "user"
Start == /\ ~up /\ up' = TRUE /\ UNCHANGED <<owner, user, sess, flight, stored, holes, want, ins, raw>>
Stop == /\ up /\ ~sess /\ up' = FALSE /\ UNCHANGED <<owner, user, sess, flight, stored, holes, want, ins, raw>>

(* a client with a new directory sets the server up; refused, it is as if it had never been *)
CanSetup == up /\ (owner = "none" \/ ~Once)
OpenNew == /\ user = "new"
           /\ IF CanSetup THEN owner' = "user" /\ user' = "open" ELSE UNCHANGED <<owner, user>>
           /\ UNCHANGED <<up, sess, flight, stored, holes, want, ins, raw>>
OpenOld == /\ user = "closed" /\ user' = "open"
           /\ UNCHANGED <<up, owner, sess, flight, stored, holes, want, ins, raw>>
Close == /\ user = "open" /\ ~sess /\ user' = "closed"
         /\ UNCHANGED <<up, owner, sess, flight, stored, holes, want, ins, raw>>

Lose(k, n) == holes' = Upd(holes, k, Val(holes, k, 0) + n) /\ UNCHANGED <<stored, want>>
(* an update by a single call *)
Update(k, v) == /\ user = "open" /\ ~sess
                /\ IF up THEN /\ stored' = Add(stored, k, <<v>>) /\ want' = Add(want, k, <<v>>) /\ UNCHANGED holes
                   ELSE Lose(k, 1)
                /\ ins' = ins + 1
                /\ UNCHANGED <<up, owner, user, sess, flight, raw>>
SOpen == /\ user = "open" /\ up /\ ~sess /\ sess' = TRUE
         /\ UNCHANGED <<up, owner, user, flight, stored, holes, want, ins, raw>>
SUpdate(k, v) == /\ sess
                 /\ flight' = Append(flight, <<k, v>>)
                 /\ want' = Add(want, k, <<v>>)
                 /\ ins' = ins + 1
                 /\ UNCHANGED <<up, owner, user, sess, stored, holes, raw>>
Deliver == /\ flight # <<>>
           /\ stored' = Add(stored, flight[1][1], <<flight[1][2]>>)
           /\ flight' = Tail(flight)
           /\ UNCHANGED <<up, owner, user, sess, holes, want, ins, raw>>
SClose == /\ sess /\ (flight = <<>> \/ ~Waits)
          /\ sess' = FALSE /\ flight' = <<>>
          /\ UNCHANGED <<up, owner, user, stored, holes, want, ins, raw>>
(* a whole file of lists, in a session of its own *)
Load(lists) == /\ user = "open" /\ up /\ ~sess
               /\ stored' = AddAll(stored, lists) /\ want' = AddAll(want, lists)
               /\ ins' = ins + Len(lists)
               /\ UNCHANGED <<up, owner, user, sess, flight, holes, raw>>

(* what a stranger sends: good (well formed) or not *)
RawSetup(good) == /\ raw' = raw + 1
                  /\ IF CanSetup /\ good THEN owner' = "other"
                     ELSE IF up /\ owner = "none" /\ ~Clean THEN owner' = "broken"
                     ELSE UNCHANGED owner
                  /\ UNCHANGED <<up, user, sess, flight, stored, holes, want, ins>>
RawOther == /\ raw' = raw + 1 /\ UNCHANGED <<up, owner, user, sess, flight, stored, holes, want, ins>>

(* what a search returns *)
Result(k) == IF Skips THEN Stored(k) ELSE Sorted(Stored(k) \o [j \in 1..Val(holes, k, 0) |-> 0])

Next == \/ Start \/ Stop \/ OpenNew \/ OpenOld \/ Close \/ SOpen \/ Deliver \/ SClose
        \/ \E k \in Keys, v \in Docs : ins < MaxIns /\ (Update(k, v) \/ SUpdate(k, v))
        \/ \E k \in Keys, v \in Docs : ins < MaxIns /\ Load(<<<<k, <<v>>>>>>)
        \/ raw < MaxRaw /\ (RawOther \/ \E g \in BOOLEAN : RawSetup(g))
Spec == Init /\ [][Next]_svars

(* once nothing is in flight, a search returns what was inserted and nothing else *)
Exact == ~sess => \A k \in Keys : Result(k) = Want(k)
(* a session's updates become visible, each once, and nothing else does *)
Between == \A k \in Keys : Sorted(Result(k) \o InFlight(k)) = Want(k)
(* a user that got a client owns the server, for ever *)
Owned == user # "new" => owner = "user"
OnlyOnce == [][owner # "none" => owner' = owner]_svars
(* only a whole setup counts *)
Whole == owner # "broken"
=============================================================================
