------------------------------- MODULE Awonvm -------------------------------
(* The append-only, write-once, on-disk vector (awonvm_vector).              *)
(*   file     what the file holds (Hole = a never written position)          *)
(*   phase    "closed" | "build" (appends) | "read" (committed)              *)
(*   count    appends made through the open object                           *)
(*   reserved length the file was extended to ahead of the appends           *)
(*   inflight asynchronous appends submitted and not yet performed           *)
(*   data     history: the appended values, the contract of every read       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Vals, Hole, MaxLen

VARIABLES file, phase, count, reserved, inflight, data, direct, aio
vars == <<file, phase, count, reserved, inflight, data, direct, aio>>

Max(a, b) == IF a > b THEN a ELSE b
WriteAt(f, p, v) == [i \in 1..Max(Len(f), p + 1) |-> IF i = p + 1 THEN v
                        ELSE IF i <= Len(f) THEN f[i] ELSE Hole]
Extend(f, n) == [i \in 1..Max(Len(f), n) |-> IF i <= Len(f) THEN f[i] ELSE Hole]

Init == /\ file = <<>> /\ phase = "closed" /\ count = 0 /\ reserved = 0
        /\ inflight = {} /\ data = <<>> /\ direct = FALSE /\ aio = TRUE

\* a non-empty file is opened committed
Open(d, a) == /\ phase = "closed"
              /\ phase' = IF Len(file) > 0 THEN "read" ELSE "build"
              /\ count' = Len(file)
              /\ reserved' = 0
              /\ direct' = d /\ aio' = a
              /\ UNCHANGED <<file, inflight, data>>

\* `ok`: a buffer that direct access accepts
Push(v, ok) == /\ phase = "build" /\ (direct => ok)
               /\ file' = WriteAt(file, count, v)
               /\ count' = count + 1
               /\ data' = Append(data, v)
               /\ UNCHANGED <<phase, reserved, inflight, direct, aio>>
CanPush(ok) == phase = "build" /\ (direct => ok)

\* a run of appends, one after the other
PushRun(vs) == /\ phase = "build" /\ ~direct /\ Len(file) = count
               /\ file' = file \o vs
               /\ count' = count + Len(vs)
               /\ data' = data \o vs
               /\ UNCHANGED <<phase, reserved, inflight, direct, aio>>

\* an asynchronous append copies its argument into an aligned buffer
APush(v) == /\ phase = "build" /\ aio
            /\ inflight' = inflight \cup {<<count, v>>}
            /\ count' = count + 1
            /\ data' = Append(data, v)
            /\ UNCHANGED <<file, phase, reserved, direct, aio>>
CanAPush == phase = "build" /\ aio

\* silent: one asynchronous append reaches the file, in any order
Perform(w) == /\ w \in inflight
              /\ file' = WriteAt(file, w[1], w[2])
              /\ inflight' = inflight \ {w}
              /\ UNCHANGED <<phase, count, reserved, data, direct, aio>>

Reserve(n) == /\ phase = "build"
              /\ IF n > count THEN file' = Extend(file, n) /\ reserved' = Max(reserved, n)
                              ELSE UNCHANGED <<file, reserved>>
              /\ UNCHANGED <<phase, count, inflight, data, direct, aio>>

Drain(f) == [i \in 1..Max(Len(f), count) |->
               IF \E w \in inflight : w[1] = i - 1
               THEN (CHOOSE w \in inflight : w[1] = i - 1)[2]
               ELSE IF i <= Len(f) THEN f[i] ELSE Hole]
\* committing performs what is in flight and gives back what was reserved in excess
Commit == /\ phase \in {"build", "read"}
          /\ phase' = "read"
          /\ file' = IF phase = "build" THEN SubSeq(Drain(file), 1, count) ELSE file
          /\ inflight' = {}
          /\ UNCHANGED <<count, reserved, data, direct, aio>>
Close == /\ phase \in {"build", "read"}
         /\ phase' = "closed"
         /\ file' = IF phase = "build" THEN SubSeq(Drain(file), 1, count) ELSE file
         /\ inflight' = {}
         /\ count' = 0
         /\ UNCHANGED <<reserved, data, direct, aio>>
\* the object is moved; the new one carries on, the old one is destroyed
Move == phase # "closed" /\ UNCHANGED vars
SetDirect(b) == /\ phase # "closed"
                /\ direct' = b
                /\ file' = Drain(file)
                /\ inflight' = {}
                /\ UNCHANGED <<phase, count, reserved, data, aio>>

InBounds(i) == i >= 0 /\ i < count
CanGet(i) == phase = "read" /\ InBounds(i)
Value(i) == data[i + 1]
Get(i, r) == CanGet(i) /\ r = Value(i) /\ UNCHANGED vars
\* what the file gives, as opposed to what the contract says
Stored(i) == file[i + 1]

Next == \/ \E d \in BOOLEAN : Open(d, TRUE)
        \/ \E v \in Vals : Push(v, TRUE) \/ APush(v)
        \/ \E v, w \in Vals : PushRun(<<v, w>>)
        \/ \E w \in inflight : Perform(w)
        \/ \E n \in 0..MaxLen : Reserve(n)
        \/ Commit \/ Close \/ Move
        \/ \E b \in BOOLEAN : b # direct /\ SetDirect(b)
        \/ \E i \in 0..MaxLen : CanGet(i) /\ Get(i, Value(i))
Spec == Init /\ [][Next]_vars
Bound == Len(data) <= MaxLen /\ Len(file) <= MaxLen

TypeOK == phase \in {"closed", "build", "read"} /\ count >= 0
\* the file of a committed vector is exactly the appended values
Faithful == phase = "read" => file = data
ReadsRight == \A i \in 0..MaxLen : CanGet(i) => Stored(i) = Value(i)
SizeIsAppends == phase # "closed" => count = Len(data)
AppendOnly == [][Len(data') >= Len(data) /\ SubSeq(data', 1, Len(data)) = data]_vars
WriteOnce == [][phase = "read" => data' = data]_vars
\* what was on the disk before the last close is on the disk afterwards
Durable == [][phase = "closed" => file' = file]_vars
=============================================================================
