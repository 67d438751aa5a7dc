------------------------------- MODULE GenDb -------------------------------
(* The random database generator.  Every document belongs to one generation   *)
(* thread and carries one keyword of each percentile, one keyword of each     *)
(* group family, and possibly keywords of random groups.  The documents of a  *)
(* thread fill its group keywords one after the other.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Groups,    \* family -> nominal size
          Rand,      \* random family -> nominal size
          Percent    \* percentile -> number of keywords
VARIABLES size,      \* documents requested, -1 between two generations
          done,      \* thread -> documents generated
          rnd        \* <<random family, thread, number>> -> documents in it
gvars == <<size, done, rnd>>
None == [x \in {} |-> 0]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Total == Sum(done, DOMAIN done)

Of(es, f) == SelectSeq(es, LAMBDA e : e.f = f)
RandOf(es) == SelectSeq(es, LAMBDA e : e.f \in DOMAIN Rand)
\* one document of thread t, with its keywords es (records of family f, thread t and number i)
Doc(t, es) ==
  /\ size >= 0 /\ Total < size
  /\ \A k \in 1..Len(es) : es[k].f \in DOMAIN Groups \cup DOMAIN Rand \cup DOMAIN Percent
  /\ \A f \in DOMAIN Percent : Len(Of(es, f)) = 1 /\ Of(es, f)[1].i \in 0..(Percent[f] - 1)
  /\ \A f \in DOMAIN Groups :
       Len(Of(es, f)) = 1 /\ Of(es, f)[1].t = t /\ Of(es, f)[1].i = At(done, t) \div Groups[f]
  /\ \A f \in DOMAIN Rand :
       /\ Len(Of(es, f)) <= 1
       /\ \A k \in 1..Len(Of(es, f)) :
             Of(es, f)[k].t = t /\ Of(es, f)[k].i >= 0 /\ At(rnd, <<f, t, Of(es, f)[k].i>>) < Rand[f]
  /\ done' = Upd(done, t, At(done, t) + 1)
  /\ LET R == RandOf(es)
         K == {<<R[k].f, t, R[k].i>> : k \in 1..Len(R)}
     IN rnd' = [x \in DOMAIN rnd \cup K |-> At(rnd, x) + (IF x \in K THEN 1 ELSE 0)]
  /\ UNCHANGED size

Start(n) == size = -1 /\ size' = n /\ done' = None /\ rnd' = None
\* the call returns: all documents were given, no call-back is running or comes later
Return(running, late) == size >= 0 /\ Total = size /\ running = 0 /\ late = 0 /\ size' = -1 /\ UNCHANGED <<done, rnd>>
(* A whole generation, seen from its end: for each thread and family, the runs of equal consecutive groups *)
Runs(m, s) == (IF m >= s THEN <<<<0, s, m \div s>>>> ELSE <<>>) \o (IF m % s > 0 THEN <<<<m \div s, m % s, 1>>>> ELSE <<>>)
Docs(runs) == LET F[i \in 0..Len(runs)] == IF i = 0 THEN 0 ELSE F[i - 1] + runs[i][2] * runs[i][3] IN F[Len(runs)]
Fam(fams, f) == fams[CHOOSE i \in DOMAIN fams : fams[i].f = f].runs
Names(s) == {s[i].f : i \in DOMAIN s}
Whole(n, threads, rand, percent, running, late) ==
  /\ size = -1 /\ running = 0 /\ late = 0 /\ UNCHANGED gvars
  /\ \A i \in DOMAIN threads :
        /\ Names(threads[i].fams) = DOMAIN Groups /\ Len(threads[i].fams) = Cardinality(DOMAIN Groups)
        /\ \E m \in {Docs(threads[i].fams[1].runs)} : \A f \in DOMAIN Groups : Fam(threads[i].fams, f) = Runs(m, Groups[f])
  /\ LET S[i \in 0..Len(threads)] == IF i = 0 THEN 0 ELSE S[i - 1] + Docs(threads[i].fams[1].runs) IN S[Len(threads)] = n
  /\ Cardinality({threads[i].t : i \in DOMAIN threads}) = Len(threads)
  /\ Names(rand) \subseteq DOMAIN Rand /\ \A i \in DOMAIN rand : rand[i].most <= Rand[rand[i].f] /\ rand[i].low >= 0
  /\ n > 0 => Names(percent) = DOMAIN Percent
  /\ \A i \in DOMAIN percent : percent[i].n = n /\ percent[i].lo >= 0 /\ percent[i].hi < Percent[percent[i].f]
=============================================================================
