----------------------------- MODULE FsTreeGen -----------------------------
(* Histories of environment changes and helper calls, for replay.             *)
EXTENDS FsTree, Json
CONSTANTS Names, MaxLen, Depth
VARIABLE hist
Log(o) == hist' = Append(hist, o)
Paths == UNION {[1..k -> Names] : k \in 1..MaxLen}
GInit == tree = [x \in {} |-> 0] /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E p \in Paths :
            \/ CanCreate(Find(p, FALSE)) /\ tree' = Put(Find(p, FALSE).at, Node("f", 3, <<>>)) /\ Log(<<"touch", p>>)
            \/ /\ CanCreate(Find(p, FALSE))
               /\ \E q \in Paths : tree' = Put(Find(p, FALSE).at, Node("l", 0, q)) /\ Log(<<"link", Find(p, FALSE).at, q>>)
            \/ CanCreate(Find(p, FALSE)) /\ tree' = Put(Find(p, FALSE).at, Node("d", 0, <<>>)) /\ Log(<<"mkdir", p>>)
            \/ Exists(p) /\ RemoveFile(p, "true") /\ Log(<<"rmfile", p>>)
            \/ Exists(p) /\ IsDirectory(p) /\ RemoveDirectory(p, "true") /\ Log(<<"rmdir", p>>)
            \/ ~Exists(p) /\ CanCreate(Find(p, TRUE)) /\ OpenFd(p, 0) /\ Log(<<"openfd", p>>)
GSpec == GInit /\ [][GNext]_<<tree, hist>>
Emit == (Len(hist) = Depth /\ hist[Depth][1] \in {"rmdir", "rmfile", "openfd"}) => PrintT("@@" \o ToJson(hist))
=============================================================================
