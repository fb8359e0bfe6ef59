------------------------------ MODULE VarTrace ------------------------------
(* Checks a log of the real Variant (and its JSON) against VarSpec and JsonSpec.  *)
EXTENDS VarSpec, Json, IOUtils, TLC
J == INSTANCE JsonSpec
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op
Q(b) == b /\ Skip
\* the JSON value that denotes a variant's value
RECURSIVE Image(_)
Image(v) == CASE v.t = "None" -> J!JNull
              [] v.t \in IntTypes -> J!JV("num", v.n, << >>, << >>, << >>)
              [] v.t = "String" -> J!JV("str", << >>, v.s, << >>, << >>)
              [] v.t \in {"StrArray", "VarArray"} -> J!JV("arr", << >>, << >>, << >>, [i \in 1..Len(v.a) |-> Image(v.a[i])])
              [] v.t = "StrVarMap" -> J!JV("obj", << >>, << >>, v.k, [i \in 1..Len(v.a) |-> Image(v.a[i])])
\* -2 is maximally compact, -1 is one line, otherwise indented
WsFor(ind) == IF ind = -2 THEN {} ELSE IF ind = -1 THEN {32} ELSE {32, 10}
JsonGood == LET p == J!Parsed(ev.text, WsFor(ev.indent)) IN p.ok /\ p.v = Image(regs[ev.r])
Call ==
  \/ Is("new") /\ New(ev.r, ev.v)
  \/ Is("newtype") /\ New(ev.r, Default(ev.t))
  \/ Is("copy") /\ Copy(ev.r, ev.s)
  \/ Is("pair") /\ Pair(ev.r, ev.s, ev.u)
  \/ Is("array") /\ ArrayOf(ev.r, ev.ss)
  \/ Is("map") /\ MapOf(ev.r, ev.ks, ev.ss)
  \/ Is("append") /\ AppendTo(ev.r, ev.s)
  \/ Is("elem") /\ ElemOf(ev.r, ev.s, ev.i)
  \/ Is("putin") /\ PutIn(ev.r, ev.k, ev.s)
  \/ Is("as") /\ As(ev.r, ev.t, ev.ok, ev.ret)
  \/ Is("asconst") /\ AsConst(ev.r, ev.t, ev.ok, ev.ret)
  \/ Is("setnum") /\ SetNum(ev.r, ev.t, ev.n, ev.ok)
  \/ Is("scribble") /\ Skip
  \/ Is("type") /\ Q(ev.t = regs[ev.r].t /\ ev.name = regs[ev.r].t /\ ev.null = (regs[ev.r].t = "None"))
  \/ Is("json") /\ Q(JsonGood)
  \/ Is("jstr") /\ Q(LET u == J!Unescaped(ev.text) IN u.ok /\ u.s = ev.s /\ ev.after = ev.s /\ ev.text2 = ev.text /\ ev.len2 = Len(ev.text))
Begin == Is("begin") /\ regs' = [r \in Reg |-> None]
End   == Is("end") /\ ev.live = 0 /\ Skip
Obs   == Is("obs") /\ Q(\A r \in Reg : ev.obs[r + 1] = regs[r])
TraceInit == l = 1 /\ Init
TraceNext == l' = l + 1 /\ (Begin \/ Call \/ Obs \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_<<regs, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
