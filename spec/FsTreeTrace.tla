---------------------------- MODULE FsTreeTrace ----------------------------
EXTENDS FsTree, TraceBase
tvars == <<tree, l>>
\* every event carries the whole tree found on disk after it
Dump == [x \in {E.tree[i].p : i \in DOMAIN E.tree} |->
           LET i == CHOOSE j \in DOMAIN E.tree : E.tree[j].p = x
           IN [t |-> E.tree[i].t, n |-> E.tree[i].n, to |-> E.tree[i].to, ro |-> E.tree[i].ro]]
Seen == tree' = Dump
TraceInit == tree = [x \in {} |-> 0] /\ l = 1
TReset == IsEvent("Reset") /\ tree' = [x \in {} |-> 0]
\* environment: what the harness itself does
TTouch == IsEvent("touch") /\ Seen
TLink == IsEvent("link") /\ Seen
TLock == IsEvent("lock") /\ Seen
\* helpers
TMkdir == IsEvent("mkdir") /\ Seen /\ CreateDirectory(E.p, E.r)
TRmfile == IsEvent("rmfile") /\ Seen /\ RemoveFile(E.p, E.r)
TRmdir == IsEvent("rmdir") /\ Seen /\ RemoveDirectory(E.p, E.r)
TOpenFd == IsEvent("openfd") /\ Seen /\ OpenFd(E.p, E.r)
TQuery == /\ IsEvent("query") /\ Seen /\ UNCHANGED tree
          /\ E.r = <<Exists(E.p), IsFile(E.p), IsDirectory(E.p)>>
TraceNext == TReset \/ TTouch \/ TLink \/ TLock \/ TMkdir \/ TRmfile \/ TRmdir \/ TOpenFd \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
