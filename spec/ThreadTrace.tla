----------------------------- MODULE ThreadTrace -----------------------------
(* Events recorded from the real Thread, checked against ThreadSpec.  Hidden
   steps place each join's effect between its call and its return. *)
EXTENDS ThreadSpec, Integers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE l
e == Trace[l]
TraceInit == TInit /\ l = 1
\* what this call will return: no other effect need be tried
RECURSIVE ResultAt(_, _)
ResultAt(i, a) == IF i > N \/ Trace[i].op = "begin" THEN -1 ELSE
                  IF Trace[i].op = "ret" /\ Trace[i].a = a THEN Trace[i].k ELSE ResultAt(i + 1, a)
Step ==
  /\ l <= N
  /\ l' = l + 1
  /\ CASE e.op = "begin" -> live' = {} /\ ran' = {} /\ going' = {} /\ ended' = {} /\ failed' = {} /\ pend' = <<>>
       [] e.op = "call" -> Call(e.a, e.f, e.k)
       [] e.op = "ret" -> Ret(e.a, e.f, e.k)
       [] e.op = "startfail" -> \E a \in DOMAIN pend : StartFails(a, e.k)
       [] e.op = "runbegin" -> RunBegin(e.k)
       [] e.op = "exiting" -> Exiting(e.k)
       [] e.op = "runend" -> RunEnd(e.k)
       [] e.op = "end" -> Finished(e.unreaped) /\ UNCHANGED tvars
       [] OTHER -> FALSE
  /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Hide ==
  /\ l <= N /\ UNCHANGED l
  /\ \E a \in DOMAIN pend :
        \/ Started(a)
        \/ /\ ~pend[a].done /\ pend[a].f \in {"joinany", "join"}
           /\ LET r == ResultAt(l, a) IN
              \/ r = 0 /\ Empty(a)
              \/ r > 0 /\ (Take(a, r) \/ Taken(a))
TraceNext == Step \/ Hide
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"DIAMETER", TLCGet(1), N>>)
=============================================================================
