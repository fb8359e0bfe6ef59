------------------------------ MODULE CodecTrace ------------------------------
(* Logs of the real codecs, against CodecSpec. *)
EXTENDS CodecSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Steps(d) == [i \in DOMAIN d |-> <<d[i].c[1], d[i].c[2], d[i].n>>]
Plus(h, lo, k) == IF lo + k > 65535 THEN <<h + 1, lo + k - 65536>> ELSE <<h, lo + k>>
\* UTF8Backup(p, limit): as without the limit when that goes no further; else one byte
Limited(s, p, lim) == IF lim >= p THEN -1 ELSE LET b == BackTo(s, p + 1) - 1 IN IF b >= lim THEN b ELSE p - 1
RECURSIVE Limits(_, _, _)
Limits(s, p, lim) == IF p > Len(s) THEN <<>> ELSE IF lim > p THEN Limits(s, p + 1, 0) ELSE <<Limited(s, p, lim)>> \o Limits(s, p, lim + 1)
Text == LET d == Fwd8(e.s, 1) IN
        /\ e.fwd = Steps(d) /\ e.peek /\ e.re = EncAll(d) /\ e.stop = 0
        /\ \A i \in DOMAIN e.s : /\ e.len[i] = (IF SeqLen(e.s, i) = 0 THEN 1 ELSE SeqLen(e.s, i))
                                 /\ e.back[i] = BackTo(e.s, i + 1) - 1
                                 /\ e.back0[i] \in {-2, e.back[i]}
        /\ e.lim # <<>> => e.lim = Limits(e.s, 1, 0)
Enc == /\ e.same
       /\ \A i \in DOMAIN e.last : LET c == Plus(e.h, e.l, i - 1) IN
            /\ e.pre \o <<e.last[i]>> = Enc8(c) /\ e.len[i] = EncLen(c)
            /\ ~Illegal(c) => e.rt[i] = 1
Enc16s == \A i \in DOMAIN e.units : LET c == Plus(e.h, e.l, i - 1) u == Enc16(c) IN
            e.rt[i] = 1 /\ e.units[i] = (IF e.swap THEN [k \in DOMAIN u |-> Swab(u[k])] ELSE u)
Kind(u) == IF High(u) THEN 6 ELSE IF Low(u) THEN 5 ELSE 0
B(x) == IF x THEN 1 ELSE 0
Good == CASE e.op = "begin" -> TRUE
          [] e.op = "end" -> e.live = 0
          [] e.op = "text" -> Text
          [] e.op = "enc" -> Enc
          [] e.op = "enc16" -> Enc16s
          [] e.op = "text16" -> e.fwd = Steps(Fwd16(e.s, 1)) /\ \A i \in DOMAIN e.s : e.kind[i] = Kind(e.s[i])
          [] e.op = "lead" -> \A b \in 0..255 : e.first[b + 1] = B(First(b)) /\ e.second[b + 1] = B(~First(b)) /\ e.len[b + 1] = LeadLen(b)
          [] e.op = "pad" -> e.out = PadZero(e.n) /\ e.clean
          [] e.op = "ill" -> \A i \in DOMAIN e.l : e.out[i] = B(Illegal(<<e.h, e.l[i]>>)) /\ e.enc[i] = e.l[i] % 256
          [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Good
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
