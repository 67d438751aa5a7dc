------------------------------ MODULE AioTrace ------------------------------
(* Recorded runs of the Linux-AIO scheduler.  The kernel may answer anything  *)
(* (Capacity = 0); what is decided is what the scheduler does with the answer.*)
EXTENDS AioSched, TraceBase

VARIABLES spec,   \* request |-> what was asked: <<id, kind, offset, length, valid>>
          res,    \* request |-> the kernel's result
          phase   \* "run" | "destroy" | "gone"
tvars == <<vars, l, spec, res, phase>>

Rng(s) == {s[i] : i \in 1..Len(s)}
TraceInit == Init /\ l = 1 /\ spec = Empty /\ res = Empty /\ phase = "run"
Keep == UNCHANGED <<spec, res, phase>>

TReset == /\ IsEvent("Reset")
          /\ calls' = Empty /\ kq' = {} /\ done' = {} /\ batch' = {} /\ called' = Empty
          /\ flag' = FALSE /\ wst' = "no" /\ spec' = Empty /\ res' = Empty /\ phase' = "run"
TSubmit == /\ IsEvent("submit")
           /\ Submit(E.c, {r[1] : r \in {x \in Rng(E.reqs) : x[5] = 1}})
           /\ spec' = [i \in {r[1] : r \in Rng(E.reqs)} |-> CHOOSE r \in Rng(E.reqs) : r[1] = i] @@ spec
           /\ UNCHANGED <<res, phase>>
\* what is offered to the kernel: pending requests of one call, as they were asked for
CallOf(S) == CHOOSE c \in DOMAIN calls : S \subseteq calls[c].pend
Offered == {o[1] : o \in Rng(E.offered)}
AsAsked(o) == /\ o[1] \in DOMAIN spec /\ o[5] = 1
              /\ o[2] = spec[o[1]][2] /\ o[3] = spec[o[1]][3] /\ o[4] = spec[o[1]][4]
TKSubmit == /\ IsEvent("ksubmit")
            /\ Cardinality(Offered) = Len(E.offered)
            /\ \A o \in Rng(E.offered) : AsAsked(o)
            /\ \E c \in DOMAIN calls : Offered \subseteq calls[c].pend
            /\ LET c == CallOf(Offered) IN
               IF E.res > 0 THEN KTake(c, {E.offered[i][1] : i \in 1..E.res})
               ELSE IF E.res = -11 \/ E.res = 0 THEN UNCHANGED vars
               ELSE KRefuse(c)
            /\ Keep
TReturn == /\ IsEvent("submitret")
           /\ Return(E.c)
           /\ LET a == Cardinality(calls[E.c].acc) IN
              IF E.ret >= 0 THEN E.ret = a ELSE a = 0
           /\ Keep
TKDone == /\ IsEvent("kcomplete") /\ KDone(E.id)
          /\ res' = (E.id :> E.res) @@ res /\ UNCHANGED <<spec, phase>>
TReap == /\ IsEvent("getevents")
         /\ IF E.res > 0 THEN /\ Rng(E.ids) \subseteq done
                              /\ done' = done \ Rng(E.ids) /\ batch' = batch \cup Rng(E.ids)
                              /\ UNCHANGED <<calls, kq, called, flag, wst>>
            ELSE UNCHANGED vars
         /\ Keep
TCallback == /\ IsEvent("cb") /\ E.tag /\ E.id \in batch /\ E.res = res[E.id]
             /\ Callback(E.id) /\ called'[E.id] = 1 /\ Keep
TWaitCall == IsEvent("waitcall") /\ WaitCall /\ Keep
TWaitRet == IsEvent("waitret") /\ WaitRet /\ (\A r \in Accepted : called[r] = 1) /\ Keep
TLate == IsEvent("late") /\ wst = "ret" /\ UNCHANGED vars /\ Keep
TLateRet == IsEvent("lateret") /\ E.ret < 0 /\ UNCHANGED vars /\ Keep
TDestroy == IsEvent("destroy") /\ phase = "run" /\ phase' = "destroy" /\ UNCHANGED <<vars, spec, res>>
TKDestroy == /\ IsEvent("kdestroy") /\ phase = "destroy" /\ E.left = 0 /\ E.known
             /\ UNCHANGED vars /\ Keep
TDestroyed == /\ IsEvent("destroyed") /\ phase = "destroy" /\ phase' = "gone"
              /\ kq = {} /\ done = {} /\ batch = {} /\ \A r \in Accepted : called[r] = 1
              /\ UNCHANGED <<vars, spec, res>>
\* reads and writes of the kernel stay inside the file
TFinal == /\ IsEvent("final") /\ phase = "gone" /\ E.size = 64 * 512 /\ UNCHANGED vars /\ Keep
TraceNext == TReset \/ TSubmit \/ TKSubmit \/ TReturn \/ TKDone \/ TReap \/ TCallback
             \/ TWaitCall \/ TWaitRet \/ TLate \/ TLateRet \/ TDestroy \/ TKDestroy \/ TDestroyed \/ TFinal
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
