------------------------------ MODULE ErrTrace ------------------------------
EXTENDS ErrSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op
Q(b) == b /\ Skip
\* one set with many message numbers: representation, parts given back, and comparisons
Num == Is("num") /\ Q(\A i \in 1..Len(ev.m) :
          /\ ev.rep[i] = Rep(ev.set, ev.m[i]) /\ ev.rep[i] < 0
          /\ ev.gset[i] = ev.set /\ ev.gmsg[i] = ev.m[i]
          /\ ev.back[i] = ev.rep[i] /\ ev.bset[i] = ev.set /\ ev.bmsg[i] = ev.m[i]   \* through int32_t
          /\ ev.ok[i])
Cmp == Is("cmp") /\ LET same == ev.s1 = ev.s2 /\ ev.m1 = ev.m2 IN
          Q(ev.eq = same /\ ev.ne = ~same /\ ev.eqi = same /\ ev.lti = (Rep(ev.s1, ev.m1) < Rep(ev.s2, ev.m2)) /\ ev.gti = (Rep(ev.s1, ev.m1) > Rep(ev.s2, ev.m2)))
Zero == Is("zero") /\ Q(ev.rep = 0 /\ ev.rep2 = 0 /\ ev.set = 0 /\ ev.msg = 0 /\ ~ev.err)
Obs == Is("obs") /\ Q(\A r \in Reg : LET o == ev.obs[r + 1] IN o = <<errs[r].num, errs[r].num, errs[r].text, errs[r].par>>)
Next == \/ Is("begin") /\ errs' = [r \in Reg |-> None]
        \/ Is("end") /\ ev.live = 0 /\ Skip
        \/ Num \/ Cmp \/ Zero \/ Obs
        \/ Is("new") /\ New(ev.r, ev.set, ev.msg, ev.text, ev.par)
        \/ Is("copy") /\ Copy(ev.r, ev.s)
        \/ Is("drop") /\ Drop(ev.r)
TraceInit == l = 1 /\ Init
TraceNext == l' = l + 1 /\ Next
TraceSpec == TraceInit /\ [][TraceNext]_<<errs, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
