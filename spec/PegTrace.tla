------------------------------- MODULE PegTrace -------------------------------
(* Matches by the real Pegexp. *)
EXTENDS PegSpec, Json, IOUtils
VARIABLES l, seq, wide
tv == <<l, seq, wide>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
TraceInit == l = 1 /\ seq = <<>> /\ wide = TRUE
Seen(c) == <<c.name, c.from, c.to, IF c.rep THEN 1 ELSE 0>>
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> seq' = <<>> /\ wide' = TRUE
       [] e.op = "end" -> e.live = 0 /\ UNCHANGED <<seq, wide>>
       [] e.op = "pat" -> LET t == Read(e.p, FALSE) IN t.ok /\ seq' = t.seq /\ wide' = e.wide
       [] e.op = "crash" -> FALSE
       [] OTHER ->
            /\ UNCHANGED <<seq, wide>>
            /\ e.idle
            /\ CASE e.op = "here" -> LET r == Here(seq, e.s, wide, e.at) IN
                                     /\ e.ok = r.ok
                                     /\ e.left = (IF r.ok THEN r.pos ELSE e.at)
                                     /\ (r.ok => e.from = e.at /\ e.to = r.pos /\ e.caps = [i \in 1..Len(r.caps) |-> Seen(r.caps[i])])
                 [] e.op = "find" -> LET r == Search(seq, e.s, wide, e.at) IN
                                     /\ e.ok = r.ok
                                     /\ (r.ok => e.from = r.from /\ e.to = r.to /\ e.caps = [i \in 1..Len(r.caps) |-> Seen(r.caps[i])])
                 \* not a pattern, but nothing untoward may happen
                 [] e.op = "any" -> TRUE
                 [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
