----------------------------- MODULE DurableLog -----------------------------
(* How the stores reach the contract of Durable: a write-ahead log in the     *)
(* kernel, a memory table that a kill erases, and table files installed by a  *)
(* flush, each step interruptible.  TLC checks that every kill and recovery   *)
(* is a step of the contract (Refines), for every interleaving.               *)
(* Wrong variants, which must be refuted: acknowledging an update that is     *)
(* only in memory, and dropping the log before the table is installed.        *)
EXTENDS Durable

CONSTANTS Keys, Vals, Counters, LogFirst, DropEarly, MaxOps

VARIABLES st, wal, mem, tabs, newt, fl, n, view
lvars == <<st, wal, mem, tabs, newt, fl, n, view>>
vars == <<dvars, lvars>>

Tomb == -1
Ops == {[op |-> "put", k |-> k, v |-> v] : k \in Keys \ Counters, v \in Vals}
       \cup {[op |-> "remove", k |-> k, v |-> 0] : k \in Keys}
       \cup {[op |-> "inc", k |-> k, v |-> 0] : k \in Counters}

\* layered read
RECURSIVE InTabs(_, _)
InTabs(k, i) == IF i = 0 THEN Tomb ELSE IF k \in DOMAIN tabs[i] THEN tabs[i][k] ELSE InTabs(k, i - 1)
Read(m, k) == IF k \in DOMAIN m THEN m[k] ELSE InTabs(k, Len(tabs))
ViewOf(m) == [k \in {x \in Keys : Read(m, x) # Tomb} |-> Read(m, k)]
Rec(o) == [k |-> o.k, v |-> CASE o.op = "put" -> o.v
                              [] o.op = "remove" -> Tomb
                              [] o.op = "inc" -> IF Read(mem, o.k) = Tomb THEN o.v ELSE Read(mem, o.k) + 1]
RECURSIVE Replay(_, _)
Replay(m, i) == IF i > Len(wal) THEN m ELSE Replay(Upd(m, wal[i].k, wal[i].v), i + 1)

Init == /\ DInit /\ st = "idle" /\ wal = <<>> /\ mem = Empty /\ tabs = <<>>
        /\ newt = Empty /\ fl = "none" /\ n = 0 /\ view = Empty

Begin == /\ st = "idle" /\ fl = "none" /\ n < MaxOps /\ n' = n + 1
         /\ \E o \in Ops : DBegin(o)
         /\ st' = "begun" /\ UNCHANGED <<wal, mem, tabs, newt, fl, view>>
LogIt == /\ up /\ st = "begun"
         /\ wal' = IF LogFirst THEN Append(wal, Rec(pend)) ELSE wal
         /\ st' = "logged" /\ UNCHANGED <<dvars, mem, tabs, newt, fl, n, view>>
ApplyIt == /\ up /\ st = "logged"
           /\ mem' = Upd(mem, Rec(pend).k, Rec(pend).v)
           /\ st' = "applied" /\ UNCHANGED <<dvars, wal, tabs, newt, fl, n, view>>
End == /\ st = "applied" /\ DEnd /\ st' = "idle" /\ view' = ViewOf(mem)
       /\ UNCHANGED <<wal, mem, tabs, newt, fl, n>>

FlushStart == /\ up /\ st = "idle" /\ fl = "none" /\ DOMAIN mem # {} /\ Len(tabs) < 2
              /\ newt' = mem /\ fl' = "written"
              /\ wal' = IF DropEarly THEN <<>> ELSE wal
              /\ UNCHANGED <<dvars, st, mem, tabs, n, view>>
FlushInstall == /\ up /\ fl = "written" /\ tabs' = Append(tabs, newt) /\ fl' = "installed"
                /\ UNCHANGED <<dvars, st, wal, mem, newt, n, view>>
FlushDrop == /\ up /\ fl = "installed" /\ wal' = <<>> /\ mem' = Empty /\ newt' = Empty /\ fl' = "none"
             /\ UNCHANGED <<dvars, st, tabs, n, view>>

\* the kill; what recovery will find is then determined
Crash == /\ up /\ up' = FALSE /\ pend' = NoOp
         /\ st' = "idle" /\ fl' = "none" /\ newt' = Empty
         /\ mem' = Replay(Empty, 1)
         /\ view' = ViewOf(mem')
         /\ acked' = view'
         /\ UNCHANGED <<wal, tabs, n>>
Open == DOpen /\ UNCHANGED lvars

Next == Begin \/ LogIt \/ ApplyIt \/ End \/ FlushStart \/ FlushInstall \/ FlushDrop \/ Crash \/ Open
Spec == Init /\ [][Next]_vars

\* the contract
CrashStep == up /\ ~up'
Refines == [][ /\ (CrashStep => DCrash)
               /\ (~CrashStep => (acked' = acked \/ DEnd)) ]_vars
ViewIsMap == (up /\ st = "idle") => ViewOf(mem) = acked
\* a counter value that was handed out is never handed out again
NeverAgain == [][\A k \in Counters : (k \in DOMAIN acked /\ k \in DOMAIN acked') => acked'[k] >= acked[k]]_vars
=============================================================================
