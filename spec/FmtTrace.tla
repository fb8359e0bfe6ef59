------------------------------ MODULE FmtTrace ------------------------------
EXTENDS FmtSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
On(op) == l <= Len(Trace) /\ ev.op = op
\* inputs are read back afterwards: neither joining nor formatting changes them
Call == \/ On("begin")
        \/ On("end") /\ ev.live = 0
        \/ On("join") /\ ev.ret = Join(ev.a, ev.j) /\ ev.len = Len(ev.ret) /\ ev.after = ev.a
        \/ On("take") /\ ev.ret = Taken(ev.a, ev.what, ev.at) /\ ev.len = Len(ev.ret)
           /\ ev.after = Rest(ev.a, ev.what, ev.at) /\ ev.copy = ev.a
        \/ On("format") /\ LET r == Format(ev.f, ev.args) IN ev.ok = r.ok /\ (r.ok => ev.ret = r.s /\ ev.len = Len(r.s)) /\ ev.fafter = ev.f
TraceInit == l = 1
TraceNext == l' = l + 1 /\ Call
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
