------------------------------- MODULE FsWalk -------------------------------
(* remove_directory as the implementation does it: a post-order walk that      *)
(* removes one entry per step.  TLC checks, for every small tree and every     *)
(* argument, that the walk ends in the outcome FsTree states.                  *)
(* Physical = FALSE is the variant that follows links (to be refuted).         *)
EXTENDS FsTree

CONSTANTS Names, Depth, Physical, Small

VARIABLES before, arg, root, stack, pc, res
vars == <<tree, before, arg, root, stack, pc, res>>

Paths == UNION {[1..k -> Names] : k \in 1..Depth}
Nodes == {Node("f", 1, <<>>), Node("d", 0, <<>>), [t |-> "d", n |-> 0, to |-> <<>>, ro |-> TRUE]}
         \cup {Node("l", 0, q) : q \in IF Small THEN {x \in Paths : Len(x) = 1} ELSE Paths \cup {<<>>}}
Trees == {f \in UNION {[S -> Nodes] : S \in SUBSET Paths} :
            \A p \in DOMAIN f : Len(p) = 1 \/ (Parent(p) \in DOMAIN f /\ f[Parent(p)].t = "d")}

Kids(d) == {q \in DOMAIN tree : Len(q) = Len(d) + 1 /\ Parent(q) = d}
\* what the walk descends into: the node itself, or (wrong) what a link points to
Target(q) == IF tree[q].t = "l" /\ ~Physical
             THEN LET w == Find(q, TRUE) IN IF w.st = "ok" /\ w.at # <<>> THEN w.at ELSE q
             ELSE q

Init == /\ tree \in Trees
        /\ arg \in Paths
        /\ before = tree /\ root = <<>> /\ stack = <<>> /\ pc = "start" /\ res = "none"

Start == /\ pc = "start"
         /\ IF ~Exists(arg) THEN pc' = "done" /\ res' = "true" /\ UNCHANGED <<root, stack>>
            ELSE /\ root' = Find(arg, FALSE).at
                 /\ stack' = <<Target(root')>> /\ pc' = "walk" /\ UNCHANGED res
         /\ UNCHANGED <<tree, before, arg>>
\* entries of a directory are visited in any order
Step == /\ pc = "walk" /\ stack # <<>>
        /\ LET top == stack[Len(stack)] IN
           IF IsDir(top) /\ Kids(top) # {}
           THEN \E k \in Kids(top) :
                  /\ \A i \in DOMAIN stack : stack[i] # Target(k)
                  /\ stack' = Append(stack, Target(k)) /\ UNCHANGED <<tree, pc, res>>
           ELSE IF Locked(Parent(top))
                THEN pc' = "done" /\ res' = "error" /\ UNCHANGED <<tree, stack>>
                ELSE tree' = Without({top}) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<pc, res>>
        /\ UNCHANGED <<before, arg, root>>
End == /\ pc = "walk" /\ stack = <<>>
       /\ pc' = "done" /\ res' = "true" /\ UNCHANGED <<tree, before, arg, root, stack>>
Next == Start \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the outcome stated by FsTree, evaluated on the tree before
Inside(p, q) == IsPrefix(p, q)
Outcome ==
  pc = "done" =>
    /\ \A q \in DOMAIN tree : q \in DOMAIN before /\ tree[q] = before[q]
    /\ root # <<>> => \A q \in DOMAIN before : ~Inside(root, q) => q \in DOMAIN tree
    /\ root = <<>> => tree = before
    /\ res = "true" /\ root # <<>> => \A q \in DOMAIN before : Inside(root, q) => q \notin DOMAIN tree
    /\ res = "error" => root \in DOMAIN tree
Ends == <>(pc = "done")
=============================================================================
