------------------------------ MODULE AioSched ------------------------------
(* The Linux-AIO scheduler: submitting calls, the kernel queue, the notifying *)
(* thread, and the hand-shake between them when the kernel is busy.           *)
(*   calls    what each submitting call is doing                              *)
(*             st   "in" (about to call io_submit) | "busy" (answered EAGAIN, *)
(*                  not yet asleep) | "parked" (asleep) | "ret" (returned)    *)
(*             pend requests not yet taken by the kernel, acc requests taken, *)
(*             err  the kernel refused with a hard error                      *)
(*   kq       requests the kernel holds;   done  their results, not yet read  *)
(*   batch    results read by the notifying thread, callbacks not yet run     *)
(*   called   number of callback runs of every request                        *)
(*   flag     m_waiting_submissions: a sleeper waits for the queue to move    *)
(*   wst      waiting for completions: "no" | "called" | "ret"                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Plan,        \* call |-> set of requests (the model's workload)
          Capacity,    \* length of the kernel queue (0: answers arbitrarily)
          TimedRetry   \* a sleeping submitter retries after a while

VARIABLES calls, kq, done, batch, called, flag, wst
vars == <<calls, kq, done, batch, called, flag, wst>>

Empty == [x \in {} |-> 0]
Init == /\ calls = Empty /\ kq = {} /\ done = {} /\ batch = {} /\ called = Empty
        /\ flag = FALSE /\ wst = "no"

Set(c, f, v) == [calls EXCEPT ![c] = [@ EXCEPT !.st = v]]

\* `valid` requests have arguments the scheduler accepts; the others never get anywhere
Submit(c, valid) ==
    /\ c \notin DOMAIN calls /\ wst = "no"
    /\ calls' = (c :> [st |-> "in", pend |-> valid, acc |-> {}, err |-> FALSE]) @@ calls
    /\ called' = [r \in valid |-> 0] @@ called
    /\ UNCHANGED <<kq, done, batch, flag, wst>>

Room(n) == Capacity = 0 \/ Cardinality(kq) + Cardinality(done) + n <= Capacity
\* io_submit takes some of the pending requests of the call
KTake(c, S) ==
    /\ c \in DOMAIN calls /\ calls[c].st = "in" /\ ~calls[c].err /\ S # {} /\ S \subseteq calls[c].pend
    /\ Room(Cardinality(S))
    /\ kq' = kq \cup S
    /\ calls' = [calls EXCEPT ![c] = [@ EXCEPT !.pend = @ \ S, !.acc = @ \cup S]]
    /\ UNCHANGED <<done, batch, called, flag, wst>>
KBusy(c) == /\ c \in DOMAIN calls /\ calls[c].st = "in" /\ ~calls[c].err /\ calls[c].pend # {}
            /\ (Capacity = 0 \/ ~Room(1))
            /\ calls' = Set(c, "st", "busy")
            /\ UNCHANGED <<kq, done, batch, called, flag, wst>>
KRefuse(c) == /\ c \in DOMAIN calls /\ calls[c].st = "in" /\ ~calls[c].err /\ calls[c].pend # {}
              /\ calls' = [calls EXCEPT ![c] = [@ EXCEPT !.err = TRUE]]
              /\ UNCHANGED <<kq, done, batch, called, flag, wst>>
Park(c) == /\ c \in DOMAIN calls /\ calls[c].st = "busy"
           /\ calls' = Set(c, "st", "parked")
           /\ flag' = TRUE
           /\ UNCHANGED <<kq, done, batch, called, wst>>
Wake(c) == /\ c \in DOMAIN calls /\ calls[c].st = "parked" /\ (~flag \/ TimedRetry)
           /\ calls' = Set(c, "st", "in")
           /\ UNCHANGED <<kq, done, batch, called, flag, wst>>
\* a call returns when the kernel took everything, or refused the rest
Return(c) == /\ c \in DOMAIN calls /\ calls[c].st = "in"
             /\ calls[c].pend = {} \/ calls[c].err
             /\ calls' = Set(c, "st", "ret")
             /\ UNCHANGED <<kq, done, batch, called, flag, wst>>

KDone(r) == /\ r \in kq
            /\ kq' = kq \ {r} /\ done' = done \cup {r}
            /\ UNCHANGED <<calls, batch, called, flag, wst>>
\* the notifying thread reads results, and wakes the sleepers
Reap(S) == /\ batch = {} /\ S # {} /\ S \subseteq done
           /\ done' = done \ S /\ batch' = S /\ flag' = FALSE
           /\ UNCHANGED <<calls, kq, called, wst>>
Callback(r) == /\ r \in batch
               /\ batch' = batch \ {r}
               /\ called' = [called EXCEPT ![r] = @ + 1]
               /\ UNCHANGED <<calls, kq, done, flag, wst>>

AllReturned == \A c \in DOMAIN calls : calls[c].st = "ret"
Accepted == UNION {calls[c].acc : c \in DOMAIN calls}
WaitCall == /\ wst = "no" /\ AllReturned
            /\ wst' = "called" /\ UNCHANGED <<calls, kq, done, batch, called, flag>>
\* the notifying thread ends once it has seen as many results as requests
WaitRet == /\ wst = "called" /\ kq = {} /\ done = {} /\ batch = {}
           /\ wst' = "ret" /\ UNCHANGED <<calls, kq, done, batch, called, flag>>

KStep(c) == \/ \E S \in SUBSET calls[c].pend : KTake(c, S)
            \/ KBusy(c)
Next == \/ \E c \in DOMAIN Plan : Submit(c, Plan[c])
        \/ \E c \in DOMAIN calls : KStep(c) \/ KRefuse(c) \/ Park(c) \/ Wake(c) \/ Return(c)
        \/ \E r \in kq : KDone(r)
        \/ \E S \in SUBSET done : Reap(S)
        \/ \E r \in batch : Callback(r)
        \/ (DOMAIN calls = DOMAIN Plan /\ WaitCall) \/ WaitRet
Fair == /\ \A c \in DOMAIN Plan : WF_vars(Submit(c, Plan[c]))
        /\ \A c \in DOMAIN Plan : /\ WF_vars(c \in DOMAIN calls /\ KStep(c))
                                  \* the kernel has room infinitely often: the queue takes it at last
                                  /\ SF_vars(c \in DOMAIN calls /\ \E S \in SUBSET calls[c].pend : KTake(c, S))
                                  /\ WF_vars(Park(c)) /\ WF_vars(Wake(c)) /\ WF_vars(Return(c))
        /\ \A r \in UNION {Plan[c] : c \in DOMAIN Plan} : WF_vars(KDone(r)) /\ WF_vars(Callback(r))
        /\ WF_vars(\E S \in SUBSET done : Reap(S))
        /\ WF_vars(DOMAIN calls = DOMAIN Plan /\ WaitCall) /\ WF_vars(WaitRet)
Spec == Init /\ [][Next]_vars /\ Fair

----
AtMostOnce == \A r \in DOMAIN called : called[r] <= 1
OnlyAccepted == \A r \in DOMAIN called : called[r] > 0 => r \in Accepted
\* every request is in exactly one place
Conservation == \A r \in Accepted :
    1 = called[r] + Cardinality({x \in {1} : r \in kq}) + Cardinality({x \in {1} : r \in done})
        + Cardinality({x \in {1} : r \in batch})
WaitMeansDone == wst = "ret" => \A r \in Accepted : called[r] = 1
SubmitReturns == \A c \in DOMAIN Plan : (c \in DOMAIN calls) ~> (c \in DOMAIN calls /\ calls[c].st = "ret")
WaitReturns == <>(wst = "ret")
=============================================================================
