------------------------------- MODULE RefCount -------------------------------
(* C05: how counted bodies are shared by threads.  Each thread has references
   of its own; a latched slot hands values from one to another.  A body may
   itself hold a reference (a list: a body and the rest).  A step is one
   atomic access to a count, or one access to a body.

   Values are sequences: mutating a reference adds one to the first item of its
   value, and changes no other; a body is put in front (Cons), or the first is
   left for the rest of it (Pop: r = r->next). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Regs, Bodies, MaxOps,
          AtomicCount,     \* counts change in one step
          TestDecrement,   \* release decides by the result of its own decrement (not by reading again)
          CopyFirst,       \* unsharing copies before it releases
          AddFirst,        \* assignment counts the new body before it releases the old
          SetFirst,        \* and reads the new before it releases the old
          Lists,           \* bodies refer to others
          Record
VARIABLES ptr, cnt, cont, nxt, free, val, slot, slotval, pc, left, hist, bad
vars == <<ptr, cnt, cont, nxt, free, val, slot, slotval, pc, left, hist, bad>>
None == 0
\* The current step of a thread: a sequence of micro-operations still to do.
\*  <<"inc", b>> <<"dec", b>> <<"set", r, b>> <<"setslot", b>> <<"copy", from, to, r>> <<"write", r>> <<"test", r>>
Init == /\ ptr = [t \in Threads |-> [r \in Regs |-> IF r = 1 THEN 1 ELSE None]]    \* all start with the same body
        /\ cnt = [b \in Bodies |-> IF b = 1 THEN Cardinality(Threads) ELSE 0]
        /\ cont = [b \in Bodies |-> 0] /\ nxt = [b \in Bodies |-> None] /\ free = Bodies \ {1}
        /\ val = [t \in Threads |-> [r \in Regs |-> IF r = 1 THEN <<0>> ELSE <<>>]]
        /\ slot = None /\ slotval = <<>>
        /\ pc = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> MaxOps] /\ hist = <<>> /\ bad = "no"
Rel(b) == IF b = None THEN <<>> ELSE <<<<"dec", b>>>>
Add(b) == IF b = None THEN <<>> ELSE <<<<"inc", b>>>>
Assign(t, r, b) == IF AddFirst THEN Add(b) \o <<<<"set", r, b>>>> \o Rel(ptr[t][r]) ELSE Rel(ptr[t][r]) \o Add(b) \o <<<<"set", r, b>>>>
Begin(t, ops, h) == /\ pc[t] = <<>> /\ left[t] > 0 /\ pc' = [pc EXCEPT ![t] = ops] /\ left' = [left EXCEPT ![t] = @ - 1]
                    /\ hist' = IF Record THEN Append(hist, <<t>> \o h) ELSE hist
Latched == \E t \in Threads : \E i \in DOMAIN pc[t] : pc[t][i][1] = "setslot" \/ pc[t][i][1] = "unlatch"
Copy(t, r, s) == r # s /\ Begin(t, Assign(t, r, ptr[t][s]), <<1, r, s>>) /\ val' = [val EXCEPT ![t][r] = val[t][s]]
                 /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Forget(t, r) == ptr[t][r] # None /\ Begin(t, Assign(t, r, None), <<2, r, 0>>) /\ val' = [val EXCEPT ![t][r] = <<>>]
                /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Mutate(t, r) == ptr[t][r] # None /\ Begin(t, <<<<"test", r>>>>, <<3, r, 0>>) /\ val' = [val EXCEPT ![t][r] = <<@[1] + 1>> \o Tail(@)]
                /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Give(t, r) == ~Latched /\ Begin(t, Add(ptr[t][r]) \o <<<<"setslot", ptr[t][r]>>>> \o Rel(slot), <<4, r, 0>>) /\ slotval' = val[t][r]
              /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, val, bad>>
Taking(t, r) == ~Latched /\ Begin(t, Assign(t, r, slot) \o <<<<"unlatch">>>>, <<5, r, 0>>) /\ val' = [val EXCEPT ![t][r] = slotval]
              /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Cons(t, r) == Begin(t, Add(ptr[t][r]) \o <<<<"cons", r>>>>, <<6, r, 0>>) /\ val' = [val EXCEPT ![t][r] = <<0>> \o @]
              /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Pop(t, r) == ptr[t][r] # None /\ Begin(t, <<<<"pop", r>>>>, <<7, r, 0>>) /\ val' = [val EXCEPT ![t][r] = Tail(@)]
             /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, slotval, bad>>
Rest(t, more) == pc' = [pc EXCEPT ![t] = more \o Tail(@)]
Use(b) == bad' = IF b \in free THEN "used after free" ELSE bad
Micro(t) ==
  /\ pc[t] # <<>>
  /\ UNCHANGED <<val, slotval, left, hist>>
  /\ LET m == Head(pc[t]) IN
     CASE m[1] = "inc" -> (IF AtomicCount THEN cnt' = [cnt EXCEPT ![m[2]] = @ + 1] /\ Rest(t, <<>>)
                           ELSE cnt' = cnt /\ Rest(t, <<<<"store", m[2], cnt[m[2]] + 1>>>>))
                          /\ Use(m[2]) /\ UNCHANGED <<ptr, cont, nxt, free, slot>>
       [] m[1] = "store" -> cnt' = [cnt EXCEPT ![m[2]] = m[3]] /\ Rest(t, <<>>) /\ Use(m[2]) /\ UNCHANGED <<ptr, cont, nxt, free, slot>>
       [] m[1] = "dec" -> IF m[2] \in free THEN bad' = "released after free" /\ Rest(t, <<>>) /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot>>
                          ELSE /\ cnt' = [cnt EXCEPT ![m[2]] = @ - 1]
                               /\ IF TestDecrement THEN (IF cnt[m[2]] = 1 THEN free' = free \cup {m[2]} /\ Rest(t, Rel(nxt[m[2]])) ELSE Rest(t, <<>>) /\ UNCHANGED free)
                                  ELSE Rest(t, <<<<"iszero", m[2]>>>>) /\ UNCHANGED free
                               /\ UNCHANGED <<ptr, cont, nxt, slot, bad>>
       [] m[1] = "iszero" -> /\ IF cnt[m[2]] = 0 THEN (IF m[2] \in free THEN bad' = "freed twice" /\ UNCHANGED free /\ Rest(t, <<>>)
                                                       ELSE free' = free \cup {m[2]} /\ UNCHANGED bad /\ Rest(t, Rel(nxt[m[2]]))) ELSE UNCHANGED <<free, bad>> /\ Rest(t, <<>>)
                             /\ UNCHANGED <<ptr, cnt, cont, nxt, slot>>
       [] m[1] = "set" -> ptr' = [ptr EXCEPT ![t][m[2]] = m[3]] /\ Rest(t, <<>>) /\ UNCHANGED <<cnt, cont, nxt, free, slot, bad>>
       [] m[1] = "setslot" -> slot' = m[2] /\ Rest(t, <<>>) /\ UNCHANGED <<ptr, cnt, cont, nxt, free, bad>>
       [] m[1] = "unlatch" -> Rest(t, <<>>) /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot, bad>>
       \* is it mine alone?
       [] m[1] = "test" -> LET b == ptr[t][m[2]] IN
                           /\ Use(b) /\ UNCHANGED <<ptr, cont, nxt, slot>>
                           /\ IF cnt[b] <= 1 THEN Rest(t, <<<<"write", m[2]>>>>) /\ UNCHANGED <<cnt, free>>
                              ELSE \E n \in free :      \* a body of its own
                                   /\ free' = free \ {n} /\ cnt' = [cnt EXCEPT ![n] = 0]
                                   /\ Rest(t, (IF CopyFirst THEN Add(nxt[b]) \o <<<<"copy", b, n>>>> \o Add(n) \o <<<<"set", m[2], n>>>> \o Rel(b)
                                               ELSE Rel(b) \o Add(nxt[b]) \o <<<<"copy", b, n>>>> \o Add(n) \o <<<<"set", m[2], n>>>>) \o <<<<"write", m[2]>>>>)
       [] m[1] = "copy" -> cont' = [cont EXCEPT ![m[3]] = cont[m[2]]] /\ nxt' = [nxt EXCEPT ![m[3]] = nxt[m[2]]] /\ Use(m[2]) /\ Rest(t, <<>>) /\ UNCHANGED <<ptr, cnt, free, slot>>
       \* a new body in front: it has counted what it refers to
       [] m[1] = "cons" -> \E n \in free :
                           /\ n = (CHOOSE x \in free : \A y \in free : x <= y)
                           /\ free' = free \ {n} /\ cnt' = [cnt EXCEPT ![n] = 0] /\ cont' = [cont EXCEPT ![n] = 0] /\ nxt' = [nxt EXCEPT ![n] = ptr[t][m[2]]]
                           /\ Rest(t, Assign(t, m[2], n)) /\ UNCHANGED <<ptr, slot, bad>>
       [] m[1] = "pop" -> LET b == ptr[t][m[2]] IN
                          /\ Use(b) /\ Rest(t, IF SetFirst THEN Assign(t, m[2], nxt[b]) ELSE Add(nxt[b]) \o Rel(b) \o <<<<"setnext", m[2], b>>>>)
                          /\ UNCHANGED <<ptr, cnt, cont, nxt, free, slot>>
       [] m[1] = "setnext" -> ptr' = [ptr EXCEPT ![t][m[2]] = nxt[m[3]]] /\ Use(m[3]) /\ Rest(t, <<>>) /\ UNCHANGED <<cnt, cont, nxt, free, slot>>
       [] m[1] = "write" -> cont' = [cont EXCEPT ![ptr[t][m[2]]] = @ + 1] /\ Use(ptr[t][m[2]]) /\ Rest(t, <<>>) /\ UNCHANGED <<ptr, cnt, nxt, free, slot>>
Next == \E t \in Threads : \/ Micro(t)
                           \/ \E r, s \in Regs : Copy(t, r, s)
                           \/ \E r \in Regs : Forget(t, r) \/ Mutate(t, r) \/ Give(t, r) \/ Taking(t, r) \/ (Lists /\ (Cons(t, r) \/ Pop(t, r)))
Spec == Init /\ [][Next]_vars
Safe == bad = "no"
\* a thread at rest sees its own values
RECURSIVE Chain(_, _)
Chain(b, n) == IF b = None \/ n = 0 THEN <<>> ELSE <<cont[b]>> \o Chain(nxt[b], n - 1)
Isolated == \A t \in Threads : pc[t] = <<>> => \A r \in Regs : ptr[t][r] # None => ptr[t][r] \notin free /\ Chain(ptr[t][r], 9) = val[t][r]
\* when all are at rest each body is counted exactly, and freed exactly when unused
Holders(b) == Cardinality({<<t, r>> \in Threads \X Regs : ptr[t][r] = b}) + (IF slot = b THEN 1 ELSE 0) + Cardinality({x \in Bodies \ free : nxt[x] = b})
Counted == (\A t \in Threads : pc[t] = <<>>) => \A b \in Bodies : IF Holders(b) = 0 THEN b \in free ELSE b \notin free /\ cnt[b] = Holders(b)
Script == (\A t \in Threads : left[t] = 0 /\ pc[t] = <<>>) => PrintT(<<"SCRIPT", ToString(hist)>>)
=============================================================================
