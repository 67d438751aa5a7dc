---------------------------- MODULE BucketTrace ----------------------------
EXTENDS Bucket, TraceBase
tvars == <<bvars, l>>
None == [x \in {} |-> <<>>]
TraceInit == c = 0 /\ size = 0 /\ page = 0 /\ used = 0 /\ parts = None /\ full = TRUE /\ l = 1
Div(a, b) == (a + b - 1) \div b
(* 8 bytes of length and 16 bytes of key, each padded to whole elements *)
TReset == /\ IsEvent("Reset") /\ size' = E.size /\ page' = E.page /\ c' = Div(8, E.size) + Div(16, E.size)
          /\ used' = 0 /\ parts' = None /\ full' = FALSE
TStart == IsEvent("start") /\ E.w = 0 /\ used' = 0 /\ parts' = None /\ full' = FALSE /\ UNCHANGED <<c, size, page>>
TEncode == IsEvent("block") /\ Encode(E.k, E.v, E.f, E.o, E.w)
TFinish == IsEvent("finish") /\ Finish(E.w)
TDecode == IsEvent("decode") /\ Decode(E.k, E.r)
TraceNext == TReset \/ TStart \/ TEncode \/ TFinish \/ TDecode
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
