----------------------------- MODULE ThreadPool -----------------------------
(* A pool of W workers and its task queue.                                    *)
(*   ins     enqueue calls in progress      q      accepted, not yet taken     *)
(*   held    taken by a worker, not started run    being executed              *)
(*   over    executed                       acc    every accepted task         *)
(*   stop    the pool is stopping: "no" | "may" (a join has begun) | "yes"     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tasks, W0
VARIABLES W, ins, q, held, run, over, acc, stop, joins
vars == <<W, ins, q, held, run, over, acc, stop, joins>>

Init == W = W0 /\ ins = {} /\ q = <<>> /\ held = {} /\ run = {} /\ over = {} /\ acc = {} /\ stop = "no" /\ joins = 0
\* joins: number of join (or destruction) calls in progress
EnqCall(t) == t \notin acc \cup ins /\ ins' = ins \cup {t} /\ UNCHANGED <<W, q, held, run, over, acc, stop, joins>>
Insert(t) == /\ t \in ins /\ t \notin acc /\ stop # "yes"
             /\ q' = Append(q, t) /\ acc' = acc \cup {t}
             /\ UNCHANGED <<W, ins, held, run, over, stop, joins>>
EnqOk(t) == t \in ins /\ t \in acc /\ ins' = ins \ {t} /\ UNCHANGED <<W, q, held, run, over, acc, stop, joins>>
EnqRefused(t) == t \in ins /\ t \notin acc /\ stop # "no" /\ ins' = ins \ {t} /\ UNCHANGED <<W, q, held, run, over, acc, stop, joins>>
Pop == /\ q # <<>> /\ Cardinality(held \cup run) < W
       /\ held' = held \cup {Head(q)} /\ q' = Tail(q)
       /\ UNCHANGED <<W, ins, run, over, acc, stop, joins>>
Start(t) == t \in held /\ held' = held \ {t} /\ run' = run \cup {t} /\ UNCHANGED <<W, ins, q, over, acc, stop, joins>>
End(t) == t \in run /\ run' = run \ {t} /\ over' = over \cup {t} /\ UNCHANGED <<W, ins, q, held, acc, stop, joins>>
JoinCall == joins' = joins + 1 /\ stop' = (IF stop = "no" THEN "may" ELSE stop) /\ UNCHANGED <<W, ins, q, held, run, over, acc>>
\* the moment at which the pool refuses new tasks
Stop == stop = "may" /\ stop' = "yes" /\ UNCHANGED <<W, ins, q, held, run, over, acc, joins>>
JoinRet == /\ joins > 0 /\ stop = "yes" /\ q = <<>> /\ held = {} /\ run = {}
           /\ joins' = joins - 1 /\ UNCHANGED <<W, ins, q, held, run, over, acc, stop>>

Next == \/ \E t \in Tasks : EnqCall(t) \/ Insert(t) \/ EnqOk(t) \/ EnqRefused(t) \/ Start(t) \/ End(t)
        \/ Pop \/ Stop \/ JoinRet \/ (joins = 0 /\ stop = "no" /\ JoinCall)
Fair == WF_vars(Pop) /\ WF_vars(Stop) /\ WF_vars(JoinRet)
        /\ \A t \in Tasks : WF_vars(Start(t)) /\ WF_vars(End(t)) /\ WF_vars(Insert(t)) /\ WF_vars(EnqOk(t) \/ EnqRefused(t))
Spec == Init /\ [][Next]_vars /\ Fair

InQ == {q[i] : i \in 1..Len(q)}
OncePlaced == /\ Len(q) = Cardinality(InQ)
              /\ acc = InQ \cup held \cup run \cup over
              /\ InQ \cap (held \cup run \cup over) = {} /\ held \cap (run \cup over) = {} /\ run \cap over = {}
Bounded == Cardinality(held \cup run) <= W
JoinedMeansDone == stop = "yes" /\ joins = 0 => acc = over
NoneAfterStop == [][stop = "yes" => acc' = acc]_vars
Fifo == [][\A t \in acc' \ acc : q' = Append(q, t)]_vars
AllRun == \A t \in Tasks : (t \in acc) ~> (t \in over)
JoinReturns == (joins > 0) ~> (joins = 0)
=============================================================================
