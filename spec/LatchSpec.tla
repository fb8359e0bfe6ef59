------------------------------ MODULE LatchSpec ------------------------------
(* C09: latches and conditions as their callers see them.  A call takes its
   effect at a moment between its start and its return. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES holder,   \* latch -> the actor that holds it, or -1
          pend      \* actor -> the call in progress
lvars == <<holder, pend>>
Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Drop(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]
Holder(l) == IF l \in DOMAIN holder THEN holder[l] ELSE -1
Waits == {"wait", "twait"}
\* The contract of the calls.  Latch -1 is "none given"; dl is the time a timed wait ends, or -1
Allowed(a, f, l) ==
  /\ a \notin DOMAIN pend
  /\ f = "enter" => Holder(l) # a
  /\ f = "leave" => Holder(l) = a
  /\ f \in Waits /\ l >= 0 => Holder(l) = a
Call(a, f, l, c, dl) ==
  /\ Allowed(a, f, l)
  /\ pend' = Put(pend, a, [f |-> f, l |-> l, c |-> c, dl |-> dl, st |-> "called", r |-> 0])
  /\ UNCHANGED holder
St(a, s) == pend' = [pend EXCEPT ![a].st = s]
Done(a, v) == pend' = [pend EXCEPT ![a].st = "done", ![a].r = v]
At(a, f, s) == a \in DOMAIN pend /\ pend[a].f = f /\ pend[a].st = s
Waiters(c) == {w \in DOMAIN pend : pend[w].st = "waiting" /\ pend[w].c = c}

Acquire(a) == At(a, "enter", "called") /\ Holder(pend[a].l) = -1 /\ holder' = Put(holder, pend[a].l, a) /\ Done(a, 0)
Release(a) == At(a, "leave", "called") /\ holder' = Put(holder, pend[a].l, -1) /\ Done(a, 0)
\* holding() gains a free latch for a moment, so another's probe may find it taken
Asking(a) == \E b \in DOMAIN pend \ {a} : pend[b].f = "holding" /\ pend[b].l = pend[a].l
Probe(a) == /\ At(a, "probe", "called")
            /\ \/ Holder(pend[a].l) = -1 /\ holder' = Put(holder, pend[a].l, a) /\ Done(a, 1)
               \/ (Holder(pend[a].l) # -1 \/ Asking(a)) /\ UNCHANGED holder /\ Done(a, 0)
\* asking whether it is held may wait for another holder
Holding(a) == At(a, "holding", "called") /\ Holder(pend[a].l) \in {a, -1} /\ UNCHANGED holder /\ Done(a, IF Holder(pend[a].l) = a THEN 1 ELSE 0)
BeginWait(a) == /\ a \in DOMAIN pend /\ pend[a].f \in Waits /\ pend[a].st = "called"
                /\ St(a, "waiting")
                /\ IF pend[a].l >= 0 THEN holder' = Put(holder, pend[a].l, -1) ELSE UNCHANGED holder
\* One waiter if there is any: and only one that already waits
Signal(a) == /\ At(a, "signal", "called")
             /\ IF Waiters(pend[a].c) = {} THEN Done(a, 0)
                ELSE \E w \in Waiters(pend[a].c) : pend' = [pend EXCEPT ![w].st = "woken", ![a].st = "done"]
             /\ UNCHANGED holder
Broadcast(a) == /\ At(a, "bcast", "called")
                /\ pend' = [x \in DOMAIN pend |-> IF x \in Waiters(pend[a].c) THEN [pend[x] EXCEPT !.st = "woken"] ELSE IF x = a THEN [pend[x] EXCEPT !.st = "done"] ELSE pend[x]]
                /\ UNCHANGED holder
TimeOut(a, now) == At(a, "twait", "waiting") /\ pend[a].dl <= now /\ St(a, "late") /\ UNCHANGED holder
\* the latch is held again before the wait returns; 1: woken, 0: too late
EndWait(a) == /\ a \in DOMAIN pend /\ pend[a].st \in {"woken", "late"}
              /\ Done(a, IF pend[a].st = "woken" THEN 1 ELSE 0)
              /\ IF pend[a].l >= 0 THEN Holder(pend[a].l) = -1 /\ holder' = Put(holder, pend[a].l, a) ELSE UNCHANGED holder
Effect(a) == Acquire(a) \/ Release(a) \/ Probe(a) \/ Holding(a) \/ BeginWait(a) \/ Signal(a) \/ Broadcast(a) \/ EndWait(a)
Ret(a, f, r) == /\ At(a, f, "done")
                /\ f \in {"probe", "holding", "twait"} => pend[a].r = r \/ r = -1    \* -1: not known
                /\ pend' = Drop(pend, a) /\ UNCHANGED holder
\* the only reasons for which a call need not end
Blocked(a) == \/ At(a, "wait", "waiting")
              \/ /\ At(a, "enter", "called") \/ At(a, "holding", "called") \/ pend[a].st = "woken" \/ pend[a].st = "late"
                 /\ pend[a].l >= 0 /\ Holder(pend[a].l) \notin {-1, a}
=============================================================================
