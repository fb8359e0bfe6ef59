------------------------------- MODULE PtrTrace -------------------------------
(* Moves of the real pointer classes.  Registers hold pointers of one kind. *)
EXTENDS PtrSpec, Json, IOUtils, TLC
VARIABLES l, kind, s, reg
tv == <<l, kind, s, reg>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
TraceInit == l = 1 /\ kind = "U" /\ s = <<>> /\ reg = <<>>
Set(r, v) == reg' = (r :> v) @@ reg
\* a register's pointer seen: position, what it points at
Sees(r, v) == e.pos = v.pos /\ <<e.ch[1], e.ch[2]>> = Deref(kind, s, v.pos) /\ e.eof = (v.pos = Len(s)) /\ e.bot = (Anchored(kind) => v.pos = v.org)
              /\ InText(kind, s, v)
P == reg[e.r]
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> kind' = "U" /\ s' = <<>> /\ reg' = <<>>
       [] e.op = "conf" -> kind' = e.kind /\ s' = e.s /\ reg' = <<>>
       [] e.op = "end" -> e.live = 0 /\ UNCHANGED <<kind, s, reg>>
       [] OTHER -> /\ UNCHANGED <<kind, s>>
                   /\ CASE e.op = "new" -> LET v == [org |-> e.at, pos |-> e.at] IN Set(e.r, v) /\ Sees(e.r, v)
                        [] e.op = "cp" -> LET v == reg[e.s] IN Set(e.r, v) /\ Sees(e.r, v)
                        \* add, sub: i to or from itself; pre and post: an increment or decrement, giving the new or old value
                        [] e.op = "add" -> LET v == Moved(kind, s, P, e.i) IN Set(e.r, v) /\ Sees(e.r, v) /\ e.ret = v.pos
                        [] e.op = "pre" -> LET v == Moved(kind, s, P, e.i) IN Set(e.r, v) /\ Sees(e.r, v) /\ e.ret = v.pos
                        [] e.op = "post" -> LET v == Moved(kind, s, P, e.i) IN Set(e.r, v) /\ Sees(e.r, v) /\ e.ret = P.pos
                        \* a new pointer some way from another, which stays
                        [] e.op = "off" -> LET v == Moved(kind, s, reg[e.s], e.i) IN Set(e.r, v) /\ Sees(e.r, v) /\ e.ret = reg[e.s].pos
                        [] e.op = "old" -> LET v == Moved(kind, s, reg[e.s], e.i) IN     \* r = s++ or s--
                                           /\ reg' = (e.r :> reg[e.s]) @@ (e.s :> v) @@ reg /\ Sees(e.r, reg[e.s]) /\ e.ret = v.pos
                        [] e.op = "diff" -> e.d = P.pos - reg[e.s].pos /\ e.d2 = P.pos - reg[e.s].pos /\ UNCHANGED reg
                        [] e.op = "len" -> /\ e.len = (IF P.pos >= Len(s) THEN 1 ELSE IF SeqLen(s, P.pos + 1) = 0 THEN 1 ELSE SeqLen(s, P.pos + 1))
                                           /\ e.first = First(At(s, P.pos + 1)) /\ UNCHANGED reg
                        [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
