------------------------------- MODULE FsTree -------------------------------
(* A directory tree with files, directories and symbolic links, and the file  *)
(* helpers acting on it.  A path is a sequence of names; the tree maps each    *)
(* existing path to its node:                                                  *)
(*   t  "f" file, "d" directory, "l" symbolic link                             *)
(*   n  size of a file          to  target of a link (a path from the root)    *)
(*   ro the directory refuses creation and removal of entries                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE tree

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Below(p) == {q \in DOMAIN tree : IsPrefix(p, q)}
IsDir(p) == p = <<>> \/ (p \in DOMAIN tree /\ tree[p].t = "d")
Locked(p) == p # <<>> /\ tree[p].ro

\* Walk: the node a path denotes.  "no": some component is missing or not a directory,
\* "new": only the last name is missing, "ok": it exists.  follow: also follow a final link.
RECURSIVE Walk(_, _, _, _)
Walk(cur, rest, follow, fuel) ==
  IF fuel = 0 THEN [st |-> "no", at |-> <<>>]
  ELSE IF rest = <<>> THEN [st |-> "ok", at |-> cur]
  ELSE IF ~IsDir(cur) THEN [st |-> "no", at |-> <<>>]
  ELSE LET nx == Append(cur, Head(rest)) IN
       IF nx \notin DOMAIN tree
       THEN [st |-> IF Len(rest) = 1 THEN "new" ELSE "no", at |-> nx]
       ELSE IF tree[nx].t = "l" /\ (Len(rest) > 1 \/ follow)
            THEN Walk(<<>>, tree[nx].to \o Tail(rest), follow, fuel - 1)
            ELSE Walk(nx, Tail(rest), follow, fuel)
Find(p, follow) == Walk(<<>>, p, follow, 12)

Node(t, n, to) == [t |-> t, n |-> n, to |-> to, ro |-> FALSE]
Put(p, v) == [x \in DOMAIN tree \cup {p} |-> IF x = p THEN v ELSE tree[x]]
Without(S) == [x \in DOMAIN tree \ S |-> tree[x]]
CanCreate(w) == w.st = "new" /\ ~Locked(Parent(w.at))

\* ---- queries (all of them follow links)
Exists(p) == Find(p, TRUE).st = "ok"
IsFile(p) == LET w == Find(p, TRUE) IN w.st = "ok" /\ w.at # <<>> /\ tree[w.at].t = "f"
IsDirectory(p) == LET w == Find(p, TRUE) IN w.st = "ok" /\ IsDir(w.at)

\* ---- create_directory: only where nothing was there, not even a dangling link
CreateDirectory(p, r) ==
  LET w == Find(p, FALSE) IN
  IF CanCreate(w) THEN r = "true" /\ tree' = Put(w.at, Node("d", 0, <<>>))
                  ELSE r = "false" /\ UNCHANGED tree
\* ---- remove_file: a file or a link, never a directory, never a link's target
RemoveFile(p, r) ==
  LET w == Find(p, FALSE) IN
  IF w.st = "ok" /\ w.at # <<>> /\ tree[w.at].t # "d" /\ ~Locked(Parent(w.at))
  THEN r = "true" /\ tree' = Without({w.at})
  ELSE r = "false" /\ UNCHANGED tree
\* ---- open_fd creates the file (through a dangling link, its target) and never truncates
OpenFd(p, r) ==
  LET w == Find(p, TRUE) IN
  IF w.st = "ok" THEN IF w.at # <<>> /\ tree[w.at].t = "f" THEN r = tree[w.at].n /\ UNCHANGED tree
                                                          ELSE r = -1 /\ UNCHANGED tree
  ELSE IF CanCreate(w) THEN r = 0 /\ tree' = Put(w.at, Node("f", 0, <<>>))
                       ELSE r = -1 /\ UNCHANGED tree
\* ---- remove_directory
Stuck(at) == \/ Locked(Parent(at))
             \/ \E q \in Below(at) : q # at /\ Locked(Parent(q))
RemoveDirectory(p, r) ==
  LET w == Find(p, FALSE) IN
  IF ~Exists(p)
  THEN \* nothing there; a dangling link may or may not be removed
       /\ r = "true"
       /\ \/ UNCHANGED tree
          \/ w.st = "ok" /\ ~Locked(Parent(w.at)) /\ tree' = Without({w.at})
  ELSE IF ~Stuck(w.at)
       THEN r = "true" /\ tree' = Without(Below(w.at))
       ELSE \* something cannot be removed: reported, and nothing outside is touched
            /\ r = "error"
            /\ DOMAIN tree' \subseteq DOMAIN tree
            /\ \A q \in DOMAIN tree' : tree'[q] = tree[q]
            /\ DOMAIN tree \ DOMAIN tree' \subseteq Below(w.at)
            /\ w.at \in DOMAIN tree'
            /\ \A q \in Below(w.at) : Locked(Parent(q)) => q \in DOMAIN tree'
=============================================================================
