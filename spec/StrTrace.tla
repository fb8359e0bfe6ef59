------------------------------ MODULE StrTrace ------------------------------
(* Checks a log of the real StrVal against StrSpec.  Results are logged with   *)
(* every call; the whole abstract state of all live strings is logged by "obs" *)
(* events only, because reading a string can itself move it to another         *)
(* internal state (cached counts, bookmarks) and so hide a defect.             *)
EXTENDS StrSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op

Begin == Is("begin") /\ regs' = [r \in Reg |-> << >>]
End   == Is("end") /\ ev.live = 0 /\ Skip
Obs   == /\ Is("obs") /\ Skip
         /\ \A r \in Reg : /\ ev.obs[r + 1] = S(r)
                           /\ ev.len[r + 1] = Len(S(r))
                           /\ ev.bytes[r + 1] = Utf8Bytes(S(r))
Q(b) == b /\ Skip
Call ==
  \/ Is("new") /\ New(ev.r, ev.v)
  \/ Is("copy") /\ Copy(ev.r, ev.s)
  \/ Is("substr") /\ Substr(ev.r, ev.s, ev.at, ev.n)
  \/ Is("head") /\ HeadOf(ev.r, ev.s, ev.n)
  \/ Is("tail") /\ TailOf(ev.r, ev.s, ev.n)
  \/ Is("shorter") /\ ShorterOf(ev.r, ev.s, ev.n)
  \/ Is("plus") /\ Plus(ev.r, ev.s, ev.t)
  \/ Is("plus_lit") /\ PlusLit(ev.r, ev.s, ev.v)
  \/ Is("lit_plus") /\ LitPlus(ev.r, ev.v, ev.s)
  \/ Is("insert") /\ Insert(ev.r, ev.at, ev.s)
  \/ Is("append") /\ AppendStr(ev.r, ev.s)
  \/ Is("append_c") /\ AppendChar(ev.r, ev.c)
  \/ Is("prepend") /\ PrependStr(ev.r, ev.s)
  \/ Is("mul") /\ Mul(ev.r, ev.s, ev.n)
  \/ Is("lower") /\ ToLower(ev.r)
  \/ Is("upper") /\ ToUpper(ev.r)
  \/ Is("aslower") /\ AsLower(ev.r, ev.s)
  \/ Is("asupper") /\ AsUpper(ev.r, ev.s)
  \/ Is("transform") /\ Transform(ev.r, ev.k, ev.after)
  \* queries
  \/ Is("len") /\ Q(ev.ret = Len(S(ev.r)) /\ ev.empty = (S(ev.r) = << >>))
  \/ Is("bytes") /\ Q(ev.ret = Utf8NumBytes(S(ev.r)))
  \/ Is("at") /\ Q(ev.i \in 0..Len(S(ev.r)) /\ ev.ret = CharAt(ev.r, ev.i))
  \/ Is("utf8") /\ Q(ev.ret = Utf8Bytes(S(ev.r)) /\ ev.nul = 0)
  \/ Is("utf8c") /\ Q(ev.ret = Utf8Bytes(S(ev.r)))
  \/ Is("cmp") /\ LET c == CmpResult(ev.r, ev.s) IN
                  Q(/\ ev.ret = c
                    /\ ev.eq = (c = 0) /\ ev.ne = (c # 0) /\ ev.lt = (c < 0) /\ ev.le = (c <= 0)
                    /\ ev.gt = (c > 0) /\ ev.ge = (c >= 0))
  \/ Is("find") /\ Q(ev.ret = FindCh(ev.r, ev.c, ev.i))
  \/ Is("rfind") /\ Q(ev.ret = RFindCh(ev.r, ev.c, ev.i))
  \/ Is("find_s") /\ Q(ev.ret = FindStr(ev.r, S(ev.s), ev.i))
  \/ Is("rfind_s") /\ Q(ev.ret = RFindStr(ev.r, S(ev.s), ev.i))
  \/ Is("find_any") /\ Q(ev.ret = FindAny(ev.r, S(ev.s), ev.i))
  \/ Is("rfind_any") /\ Q(ev.ret = RFindAny(ev.r, S(ev.s), ev.i))
  \/ Is("find_not") /\ Q(ev.ret = FindNot(ev.r, S(ev.s), ev.i))
  \/ Is("rfind_not") /\ Q(ev.ret = RFindNot(ev.r, S(ev.s), ev.i))

TraceInit == l = 1 /\ Init
TraceNext == l' = l + 1 /\ (Begin \/ Call \/ Obs \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_<<regs, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
