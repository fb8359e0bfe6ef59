------------------------------- MODULE SourceTrace -------------------------------
(* Reads, copies and comparisons of the real sources. *)
EXTENDS SourceSpec, Json, IOUtils, TLC
VARIABLES l, wide, s, reg
tv == <<l, wide, s, reg>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
TraceInit == l = 1 /\ wide = TRUE /\ s = <<>> /\ reg = <<>>
Set(r, x) == reg' = (r :> x) @@ reg
Sees(x) == /\ e.null = x.null /\ e.eof = Eof(s, x) /\ e.bol = Bol(x) /\ (~x.null => e.pos = x.pos)
           /\ e.b = ByteCount(x) /\ e.l = LineCount(x) /\ e.c = Column(x)
X == reg[e.r]
Y == reg[e.s]
LastUnit(y, x, none) == IF y = x THEN none ELSE y.units[Len(y.units)]
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> wide' = TRUE /\ s' = <<>> /\ reg' = [r \in 0..3 |-> Null]
       [] e.op = "conf" -> wide' = e.wide /\ s' = e.s /\ reg' = [r \in 0..3 |-> Null]
       [] e.op = "end" -> e.live = 0 /\ UNCHANGED <<wide, s, reg>>
       [] OTHER -> /\ UNCHANGED <<wide, s>>
                   /\ CASE e.op = "new" -> LET x == At0(e.at) IN Set(e.r, x) /\ Sees(x)
                        [] e.op = "null" -> Set(e.r, Null) /\ Sees(Null)
                        [] e.op = "cp" -> Set(e.r, Y) /\ Sees(Y)
                        [] e.op = "byte" -> LET y == ReadByte(s, X) IN Set(e.r, y) /\ Sees(y) /\ <<e.ch[1], e.ch[2]>> = LastUnit(y, X, <<0, 0>>)
                        [] e.op = "char" -> LET y == IF wide THEN ReadChar(s, X) ELSE ReadByte(s, X) IN
                             Set(e.r, y) /\ Sees(y) /\ <<e.ch[1], e.ch[2]>> = LastUnit(y, X, IF wide THEN <<65535, 65535>> ELSE <<0, 0>>)
                        [] e.op = "skip" -> LET y == ReadMany(s, X, e.n) IN Ascii(s, X, e.n) /\ Set(e.r, y) /\ Sees(y)
                        \* two sources over one text, or two void ones
                        [] e.op = "cmp" -> /\ UNCHANGED reg
                                           /\ e.same = (X.null = Y.null /\ X.pos = Y.pos)
                                           /\ (X.null = Y.null => e.lt = (X.pos < Y.pos) /\ e.d = X.pos - Y.pos)
                                           /\ e.bf = ByteCount(X) - ByteCount(Y)
                                           /\ (~X.null /\ ~Y.null /\ X.pos <= Y.pos => e.to = SubSeq(s, X.pos + 1, Y.pos))
                        [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
