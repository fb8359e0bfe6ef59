------------------------------- MODULE RxTrace --------------------------------
(* C16, C17: expressions compiled, and texts matched, by the real compiler and matcher. *)
EXTENDS RxSpec, Json, IOUtils
VARIABLES l, t                   \* t: the tree of the expression; b: without its captures
tv == <<l, t>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Nothing == [ok |-> FALSE]
TraceInit == l = 1 /\ t = Nothing
Refused == ~e.nfa /\ e.msg /\ e.pos >= 0 /\ e.pos <= Len(e.p)
Told(x) == Refused /\ (x.n > 1 => e.pos >= x.n - 1) /\ e.pos <= x.to
Result(m) == /\ e.can = t.ok
             /\ t.ok => /\ e.ok = m.ok /\ e.cleared
                        /\ e.from = m.from /\ e.to = m.to /\ e.len = m.to - m.from
                        /\ m.ok => /\ e.c0 = m.from /\ e.c1 = m.to
                                   /\ IF t.names = <<>> THEN e.g = <<>> ELSE Captured(t, e.s, m, e.g)
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> t' = Nothing
       [] e.op = "end" -> e.live = 0 /\ UNCHANGED t
       [] e.op = "re" -> LET x == Read(e.p, [on |-> e.on, rej |-> e.rej]) IN
                         /\ e.ok = x.ok
                         /\ IF x.ok THEN e.nfa /\ ~e.msg /\ e.names = x.names /\ e.nonames /\ e.listed /\ e.caps = Len(x.names) ELSE Told(x)
                         /\ t' = IF x.ok THEN [ok |-> TRUE, alts |-> x.alts, names |-> x.names, b |-> BareAlts(x.alts)] ELSE Nothing
       [] e.op = "find" -> Result(IF t.ok THEN Search(t.b, e.s, e.off) ELSE None) /\ UNCHANGED t
       [] e.op = "at" -> Result(IF t.ok THEN Anchored(t.b, e.s, e.off) ELSE None) /\ UNCHANGED t
       \* of bytes that may be anything: only that there is an answer, and that it makes sense
       [] e.op = "bytes" -> (IF e.ok THEN e.nfa /\ ~e.msg /\ e.listed ELSE Refused) /\ UNCHANGED t
       [] e.op = "findb" -> /\ UNCHANGED t
                            /\ e.can => e.cleared /\ (e.ok => e.off <= e.from /\ e.from <= e.to /\ e.to <= e.n /\ e.len = e.to - e.from
                                                              /\ \A x \in 1..Len(e.g) : e.g[x] = <<0, 0>> \/ (e.from <= e.g[x][1] /\ e.g[x][1] <= e.g[x][2] /\ e.g[x][2] <= e.to))
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
