------------------------------ MODULE NumTrace ------------------------------
(* Checks a log of the real StrVal::asInt32 against NumSpec.  On overflow the    *)
(* value and the scan length are unspecified; on any other error that leaves no  *)
(* number, the value must be 0.                                                  *)
EXTENDS NumSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op
Good == LET p == Parse(ev.s, ev.radix) IN
        /\ ev.err = p.err
        /\ (p.err # 3 => ev.ret = p.val /\ ev.used = p.used)
        /\ ev.same        \* the optional result pointers make no difference
Call == (Is("begin")) \/ (Is("end") /\ ev.live = 0) \/ (Is("num") /\ Good)
TraceInit == l = 1
TraceNext == l' = l + 1 /\ Call
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
