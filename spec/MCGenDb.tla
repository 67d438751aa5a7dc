------------------------------ MODULE MCGenDb ------------------------------
(* The generation algorithm on scaled-down families: T threads stride over    *)
(* the documents; each keeps its own counters and caps its random groups.     *)
(* Refine: every step is a step of GenDb.                                     *)
EXTENDS GenDb
CONSTANTS T, N, NameOfR2,  \* the name the first random family is emitted under
          Join             \* the caller waits for every thread
VARIABLES pos,     \* thread -> next document number
          grp,     \* <<family, thread>> -> <<current number, documents in it>>
          cap,     \* <<random family, thread, number>> -> internal count
          returned
mcvars == <<gvars, pos, grp, cap, returned>>
MGroups == ("g2" :> 2) @@ ("g3" :> 3)
MRand == ("r2" :> 1) @@ ("r3" :> 2)
MPercent == ("p" :> 2)
Threads == 0..(T - 1)
MCInit == /\ size = N /\ done = None /\ rnd = None /\ returned = FALSE
          /\ pos = [t \in Threads |-> t]
          /\ grp = [x \in (DOMAIN MGroups) \X Threads |-> <<0, 0>>]
          /\ cap = [x \in ((DOMAIN MRand) \X Threads \X {0}) |-> 0]
GroupEntry(f, t) == [f |-> f, t |-> t, i |-> grp[<<f, t>>][1]]
Step(t, p, want) ==
  LET take == {f \in want : cap[<<f, t, 0>>] < MRand[f]}
      name(f) == IF f = "r2" THEN NameOfR2 ELSE f
      es == <<[f |-> "p", t |-> 0, i |-> p], GroupEntry("g2", t), GroupEntry("g3", t)>>
            \o (IF "r2" \in take THEN <<[f |-> name("r2"), t |-> t, i |-> 0]>> ELSE <<>>)
            \o (IF "r3" \in take THEN <<[f |-> "r3", t |-> t, i |-> 0]>> ELSE <<>>)
  IN /\ ~returned \/ ~Join
     /\ pos[t] < N
     /\ pos' = [pos EXCEPT ![t] = @ + T]
     /\ grp' = [x \in DOMAIN grp |->
                  IF x[2] # t THEN grp[x]
                  ELSE IF grp[x][2] + 1 = MGroups[x[1]] THEN <<grp[x][1] + 1, 0>> ELSE <<grp[x][1], grp[x][2] + 1>>]
     /\ cap' = [x \in DOMAIN cap |-> IF x[2] = t /\ x[1] \in take THEN cap[x] + 1 ELSE cap[x]]
     /\ done' = Upd(done, t, At(done, t) + 1)
     /\ LET R == RandOf(es)
        IN rnd' = [x \in DOMAIN rnd \cup {<<R[k].f, t, R[k].i>> : k \in 1..Len(R)} |->
                     At(rnd, x) + Cardinality({k \in 1..Len(R) : <<R[k].f, t, R[k].i>> = x})]
     /\ UNCHANGED <<size, returned>>
Finish == /\ ~returned /\ (Join => \A t \in Threads : pos[t] >= N)
          /\ returned' = TRUE /\ UNCHANGED <<gvars, pos, grp, cap>>
MCNext == Finish \/ \E t \in Threads, p \in 0..1, want \in SUBSET DOMAIN MRand : Step(t, p, want)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* no random group exceeds its nominal size
Capped == \A x \in DOMAIN rnd : rnd[x] <= MRand[x[1]]
\* the group counters are the ones the documents call for
InOrder == \A t \in Threads, f \in DOMAIN MGroups :
             /\ grp[<<f, t>>][1] = At(done, t) \div MGroups[f]
             /\ grp[<<f, t>>][2] = At(done, t) % MGroups[f]
Complete == returned => Total = N
=============================================================================
