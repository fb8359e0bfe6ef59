----------------------------- MODULE ArrayTrace -----------------------------
(* Checks a log of the real Array<> against ArraySpec: every logged call must  *)
(* be an ArraySpec action with the logged result, and after it every live      *)
(* array must read (elements and length) as the specification says.            *)
EXTENDS ArraySpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]

\* the predicates, mappings and accumulators the driver passes to the code
P0(e) == e % ev.m = ev.k
F0(e) == 2 * e + ev.k
J0(a, e) == (a * 31 + e) % 9973

Is(op) == l <= Len(Trace) /\ ev.op = op
\* full projection of the real state after the call: obs[r+1] = elements of array r
Obs == /\ \A r \in Reg : ev.obs[r + 1] = regs'[r]
       /\ \A r \in Reg : ev.len[r + 1] = Len(regs'[r])

Begin == Is("begin") /\ regs' = [r \in Reg |-> << >>]
End   == Is("end") /\ ev.live = 0 /\ Skip       \* every block released

Call ==
  \/ Is("new") /\ New(ev.r, ev.v)
  \/ Is("copy") /\ Copy(ev.r, ev.s)
  \/ Is("slice") /\ SliceOf(ev.r, ev.s, ev.at, ev.n)
  \/ Is("head") /\ HeadOf(ev.r, ev.s, ev.n)
  \/ Is("tail") /\ TailOf(ev.r, ev.s, ev.n)
  \/ Is("shorter") /\ ShorterOf(ev.r, ev.s, ev.n)
  \/ Is("drop") /\ DropOf(ev.r, ev.s, ev.n)
  \/ Is("plus") /\ Plus(ev.r, ev.s, ev.t)
  \/ Is("plus_e") /\ PlusElem(ev.r, ev.s, ev.e)
  \/ Is("set") /\ SetElem(ev.r, ev.i, ev.e)
  \/ Is("push") /\ Push(ev.r, ev.e)
  \/ Is("unshift") /\ Unshift(ev.r, ev.e)
  \/ Is("insert") /\ Insert(ev.r, ev.at, ev.s)
  \/ Is("append") /\ AppendArr(ev.r, ev.s)
  \/ Is("shift") /\ Shift(ev.r, ev.ret)
  \/ Is("pull") /\ Pull(ev.r, ev.ret)
  \/ Is("delete_at") /\ DeleteAt(ev.r, ev.i, ev.ret)
  \/ Is("remove") /\ Remove(ev.r, ev.at, ev.n)
  \/ Is("clear") /\ Clear(ev.r)
  \/ Is("reverse") /\ Reverse(ev.r)
  \/ Is("delete_if") /\ DeleteIf(ev.r, P0)
  \/ Is("compare") /\ ev.ret = CmpResult(ev.r, ev.s) /\ Skip
  \/ Is("eq") /\ ev.ret = EqResult(ev.r, ev.s) /\ ev.ne = ~EqResult(ev.r, ev.s) /\ Skip
  \/ Is("find") /\ ev.ret = FindResult(ev.r, ev.i, LAMBDA x : x = ev.e) /\ Skip
  \/ Is("rfind") /\ ev.ret = RFindResult(ev.r, ev.i, LAMBDA x : x = ev.e) /\ Skip
  \/ Is("find_if") /\ ev.ret = FindResult(ev.r, ev.i, P0) /\ Skip
  \/ Is("rfind_if") /\ ev.ret = RFindResult(ev.r, ev.i, P0) /\ Skip
  \/ Is("detect") /\ ev.ret = FindResult(ev.r, -1, P0) /\ Skip
  \/ Is("all") /\ ev.ret = AllResult(ev.r, P0) /\ Skip
  \/ Is("any") /\ ev.ret = AnyResult(ev.r, P0) /\ Skip
  \/ Is("one") /\ ev.ret = OneResult(ev.r, P0) /\ Skip
  \/ Is("each") /\ ev.ret = S(ev.r) /\ Skip
  \/ Is("visit") /\ Visit(ev.r, ev.s, ev.at, ev.what, ev.e, IF ev.back THEN Rev(ev.seen) ELSE ev.seen) /\ ev.made = S(ev.r)
  \/ Is("last") /\ S(ev.r) # << >> /\ ev.ret = At(S(ev.r), Len(S(ev.r)) - 1) /\ Skip
  \/ Is("elem") /\ ev.i \in 0..(Len(S(ev.r)) - 1) /\ ev.ret = At(S(ev.r), ev.i) /\ Skip
  \/ Is("select") /\ SelectOf(ev.r, ev.s, P0)
  \/ Is("map") /\ MapOf(ev.r, ev.s, F0)
  \/ Is("inject") /\ ev.ret = InjectResult(ev.r, ev.j, J0) /\ Skip
  \/ Is("bsearch") /\ BSearchOK(ev.r, ev.e, ev.ret) /\ Skip

TraceInit == l = 1 /\ Init
TraceNext == /\ l' = l + 1
             /\ \/ Begin
                \/ Call /\ Obs
                \/ End
TraceSpec == TraceInit /\ [][TraceNext]_<<regs, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
