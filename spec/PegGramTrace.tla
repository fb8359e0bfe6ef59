----------------------------- MODULE PegGramTrace -----------------------------
(* C14, C15: parses by the real Peg, with grammars built in the same scenario. *)
EXTENDS PegSpec, Json, IOUtils
VARIABLES l, rules
tv == <<l, rules>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
TraceInit == l = 1 /\ rules = <<>>
\* a value is logged as a flat list
RECURSIVE Val(_, _), Elems(_, _, _, _), Pairs(_, _, _, _)
Elems(x, i, n, acc) == IF n = 0 THEN [v |-> <<"a", acc>>, i |-> i] ELSE LET y == Val(x, i) IN Elems(x, y.i, n - 1, Append(acc, y.v))
Pairs(x, i, n, m) == IF n = 0 THEN [v |-> <<"m", m>>, i |-> i] ELSE LET y == Val(x, i + 1) IN Pairs(x, y.i, n - 1, (x[i][2] :> y.v) @@ m)
Val(x, i) == CASE x[i][1] = "m" -> Pairs(x, i + 1, x[i][2], <<>>)
               [] x[i][1] = "a" -> Elems(x, i + 1, x[i][2], <<>>)
               [] OTHER -> [v |-> x[i], i |-> i + 1]
Want(f) == <<f.rule, f.at, f.to, f.path>>
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> rules' = <<>>
       [] e.op = "end" -> e.live = 0 /\ UNCHANGED rules
       [] e.op = "rule" -> LET t == Read(e.p, TRUE) IN
                           t.ok /\ rules' = (e.name :> [p |-> e.p, seq |-> t.seq, caps |-> {e.caps[i] : i \in 1..Len(e.caps)}]) @@ rules
       [] e.op = "clear" -> rules' = <<>>
       [] e.op = "plain" -> /\ UNCHANGED rules
                            /\ LET r == Parse(rules, e.s, FALSE) IN e.ok = r.ok /\ e.left = (IF r.ok THEN r.pos ELSE 0)
       [] e.op = "parse" -> /\ UNCHANGED rules
                            /\ LET r == Parse(rules, e.s, TRUE) x == Expected(rules, r) IN
                               /\ e.ok = r.ok
                               /\ e.left = (IF r.ok THEN r.pos ELSE 0)
                               /\ (r.ok => Val(e.val, 1).v = Outcome(r))
                               /\ e.far = x.far
                               /\ e.wants = [i \in 1..Len(x.wants) |-> Want(x.wants[i])]
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
