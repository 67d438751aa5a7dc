---------------------------- MODULE ThreadPoolGen ----------------------------
EXTENDS ThreadPool, Json
CONSTANT Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
GInit == Init /\ hist = <<>>
N == Cardinality(acc)
\* enqueuing is atomic here; a task runs until the scenario lets it go
GNext == /\ Len(hist) < Depth
         /\ \/ /\ stop = "no" /\ q' = Append(q, N + 1) /\ acc' = acc \cup {N + 1} /\ UNCHANGED <<W, ins, held, run, over, stop, joins>>
               /\ \E k \in {"v", "v", "x", "c"} : Log(<<"enq", k>>)
            \/ \E t \in acc \ over : /\ \A u \in acc \ over : u # t => Cardinality({x \in acc \ over : x < t}) < W
                                     /\ over' = over \cup {t} /\ UNCHANGED <<W, ins, q, held, run, acc, stop, joins>>
                                     /\ Log(<<"go", t>>)
            \/ Len(hist) > 2 /\ stop = "no" /\ JoinCall /\ Log(<<"join">>)
            \/ stop = "may" /\ hist[Len(hist)][1] # "late" /\ UNCHANGED vars /\ Log(<<"late">>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
