------------------------------- MODULE RefTrace -------------------------------
(* C05: values that share storage, changed by several threads.  Each thread's
   registers hold values of its own; the slots are shared, under a latch.
   Whatever the others do, a register holds what its thread put in it. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, reg, slot, fin, actors
tv == <<l, reg, slot, fin, actors>>
e == Trace[l]
Rs == 0..2
TraceInit == l = 1 /\ reg = <<>> /\ slot = <<>> /\ fin = {} /\ actors = 0
Min(a, b) == IF a < b THEN a ELSE b
Slice(s, at, n) == SubSeq(s, at + 1, Min(at + n, Len(s)))
My == reg[e.a]
\* the value that the operation leaves in its register
New == CASE e.f \in {"cp", "mv", "nest", "many"} -> My[e.s]
         [] e.f = "sub" -> Slice(My[e.s], e.v, e.n)
         [] e.f = "app" -> Append(My[e.r], e.s)
         [] e.f = "front" -> <<e.s>> \o My[e.r]
         [] e.f = "cat" -> My[e.r] \o My[e.s]
         [] e.f = "cut" -> SubSeq(My[e.r], 1, Len(My[e.r]) - 1)
         [] e.f = "set0" -> <<e.s>> \o Tail(My[e.r])
         [] e.f \in {"get", "give"} -> My[e.r]
         [] e.f \in {"drop", "dtor"} -> <<>>
         [] e.f = "take" -> slot[e.s]
Step ==
  /\ l <= N /\ l' = l + 1
  /\ CASE e.op = "begin" -> reg' = <<>> /\ slot' = <<>> /\ fin' = {} /\ actors' = 0
       [] e.op = "conf" -> /\ actors' = e.actors /\ fin' = {}
                           /\ reg' = [a \in 0..(e.actors - 1) |-> [r \in Rs |-> IF r = 0 THEN e.init ELSE <<>>]]
                           /\ slot' = [k \in 0..1 |-> IF k = 0 THEN e.init ELSE <<>>]
       [] e.op = "do" -> /\ e.a \in 0..(actors - 1) \ fin
                         /\ e.out = New
                         /\ reg' = [reg EXCEPT ![e.a] = [@ EXCEPT ![e.r] = New]]
                         /\ slot' = IF e.f = "give" THEN [slot EXCEPT ![e.s] = New] ELSE slot
                         /\ UNCHANGED <<fin, actors>>
       [] e.op = "fin" -> e.a \notin fin /\ fin' = fin \cup {e.a} /\ UNCHANGED <<reg, slot, actors>>
       \* everything was released, once
       [] e.op = "end" -> e.left = 0 /\ fin = 0..(actors - 1) /\ UNCHANGED <<reg, slot, fin, actors>>
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][Step]_tv
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, N>>)
=============================================================================
