------------------------------ MODULE MapTrace ------------------------------
(* Checks a log of the real CowMap against MapSpec.                             *)
EXTENDS MapSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op
Begin == Is("begin") /\ regs' = [r \in Reg |-> Empty]
End   == Is("end") /\ ev.live = 0 /\ Skip
Obs   == Is("obs") /\ Skip /\ \A r \in Reg : ev.obs[r + 1] = Entries(r)
Q(b) == b /\ Skip
Call ==
  \/ Is("new") /\ New(ev.r, ev.es)
  \/ Is("copy") /\ Copy(ev.r, ev.s)
  \/ Is("put") /\ ev.ret = ev.k /\ Put(ev.r, ev.k, ev.v)
  \/ Is("insert") /\ Insert(ev.r, ev.k, ev.v)
  \/ Is("remove") /\ Remove(ev.r, ev.k)
  \/ Is("clear") /\ Clear(ev.r)
  \/ Is("select") /\ Select(ev.r, ev.s, ev.p)
  \/ Is("map") /\ MapTo(ev.r, ev.s, ev.f)
  \/ Is("get") /\ Q(ev.ret = Get(ev.r, ev.k, 0))
  \/ Is("has") /\ Q(ev.ret = Has(ev.r, ev.k))
  \/ Is("find") /\ Q(ev.found = Has(ev.r, ev.k) /\ (ev.found => ev.key = ev.k /\ ev.ret = M(ev.r)[ev.k]))
  \/ Is("size") /\ Q(ev.ret = Size(ev.r))
  \/ Is("keys") /\ Q(ev.ret = Keys(ev.r))
  \/ Is("values") /\ Q(ev.ret = Values(ev.r))
  \/ Is("each") /\ Q(ev.ret = Entries(ev.r))
  \/ Is("count") /\ Q(ev.all = All(ev.r, ev.p) /\ ev.any = Any(ev.r, ev.p) /\ ev.one = One(ev.r, ev.p))
  \/ Is("inject") /\ Q(ev.ret = Fold(Entries(ev.r), ev.start))
  \/ Is("visit") /\ Visit(ev.r, ev.s, ev.at, ev.what, ev.k, ev.v, ev.seen) /\ ev.made = Size(ev.r)
TraceInit == l = 1 /\ Init
TraceNext == l' = l + 1 /\ (Begin \/ Call \/ Obs \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_<<regs, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
