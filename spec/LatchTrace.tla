------------------------------ MODULE LatchTrace ------------------------------
(* Events of the real Latch and Condition, checked against LatchSpec. *)
EXTENDS LatchSpec, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, fin, exact    \* exact: time passes only when nothing else can happen
tv == <<lvars, l, fin, exact>>
e == Trace[l]
TraceInit == holder = <<>> /\ pend = <<>> /\ l = 1 /\ fin = {} /\ exact = FALSE
Same == UNCHANGED <<fin, exact>>
Step ==
  /\ l <= N /\ l' = l + 1
  /\ CASE e.op = "begin" -> holder' = <<>> /\ pend' = <<>> /\ fin' = {} /\ exact' = FALSE
       [] e.op = "conf" -> exact' = e.exact /\ UNCHANGED <<lvars, fin>>
       [] e.op = "call" -> e.a \notin fin /\ Call(e.a, e.f, e.l, e.c, IF e.ms < 0 THEN -1 ELSE e.t + e.ms * 1000) /\ Same
       [] e.op = "ret" -> /\ Ret(e.a, e.f, e.r)
                          \* a timed wait ends no earlier than its time, nor later than it must
                          /\ e.f = "twait" /\ e.r = 0 => e.t >= pend[e.a].dl /\ (exact => e.t = pend[e.a].dl)
                          /\ Same
       [] e.op = "fin" -> e.a \notin DOMAIN pend /\ fin' = fin \cup {e.a} /\ UNCHANGED <<lvars, exact>>
       \* what was protected by a latch was changed by nobody else
       [] e.op = "crit" -> Holder(e.l) = e.a /\ e.ok /\ UNCHANGED lvars /\ Same
       \* it sleeps: a signal from now on is for it too
       [] e.op = "asleep" -> e.a \in DOMAIN pend /\ pend[e.a].st \in {"waiting", "woken", "late"} /\ UNCHANGED lvars /\ Same
       [] e.op = "stuck" -> /\ pend # <<>> /\ \A a \in DOMAIN pend : Blocked(a)
                            /\ fin \cup DOMAIN pend = 0..(e.actors - 1) /\ UNCHANGED lvars /\ Same
       [] e.op = "end" -> pend = <<>> /\ UNCHANGED lvars /\ Same
       [] OTHER -> FALSE
  /\ TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Hide == /\ l <= N /\ UNCHANGED l /\ Same
        /\ e.op # "begin" /\ \E a \in DOMAIN pend : Effect(a) \/ ("t" \in DOMAIN e /\ TimeOut(a, e.t))
TraceSpec == TraceInit /\ [][Step \/ Hide]_tv
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"DIAMETER", TLCGet(1), N>>)
=============================================================================
