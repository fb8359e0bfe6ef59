------------------------------ MODULE LatchModel ------------------------------
(* Programs built on LatchSpec's latches and conditions: monitors whose waiters
   need a value to be reached.  Checks that the guarantees of LatchSpec are
   enough for such programs (nobody is inside a monitor with another, every
   waiter whose value is reached goes on), and yields schedules. *)
EXTENDS LatchSpec, TLC
CONSTANTS Until,     \* actor -> the value it waits for, once or twice (a sequence)
          Puts,      \* actor -> how often it adds one
          All,       \* adding wakes every waiter, else one
          Held,      \* the latch is held while adding and waking
          Timed,     \* actors whose wait ends after some time, and starts again
          Record
VARIABLES pc, val, left, hist
vars == <<lvars, pc, val, left, hist>>
Actors == DOMAIN Until
Rec(a) == hist' = IF Record THEN Append(hist, a) ELSE hist
Init == /\ holder = <<>> /\ pend = <<>> /\ val = 0 /\ hist = <<>>
        /\ pc = [a \in Actors |-> "next"] /\ left = [a \in Actors |-> <<Until[a], Puts[a]>>]
Go(a, to) == pc' = [pc EXCEPT ![a] = to]
Calls(a, f, to) == Call(a, f, 0, 0, IF f = "twait" THEN 0 ELSE -1) /\ Go(a, to) /\ UNCHANGED <<val, left, hist>>
Returns(a, f, to) == (\E r \in 0..1 : Ret(a, f, r)) /\ Go(a, to) /\ UNCHANGED <<val, left, hist>>
WaitF(a) == IF a \in Timed THEN "twait" ELSE "wait"
Prog(a) ==
  \/ /\ pc[a] = "next"
     /\ IF left[a][1] # <<>> THEN Calls(a, "enter", "inU")
        ELSE IF left[a][2] > 0 THEN (IF Held THEN Calls(a, "enter", "inP") ELSE Go(a, "add") /\ UNCHANGED <<lvars, val, left, hist>>)
        ELSE Go(a, "stop") /\ UNCHANGED <<lvars, val, left, hist>>
  \/ pc[a] = "inU" /\ Returns(a, "enter", "test")
  \/ pc[a] = "test" /\ IF val >= left[a][1][1] THEN Calls(a, "leave", "outU") ELSE Calls(a, WaitF(a), "waitU")
  \/ pc[a] = "waitU" /\ Returns(a, WaitF(a), "test")
  \/ pc[a] = "outU" /\ pend' = Drop(pend, a) /\ At(a, "leave", "done") /\ UNCHANGED <<holder, val, hist>>
     /\ left' = [left EXCEPT ![a][1] = Tail(@)] /\ Go(a, "next")
  \/ pc[a] = "inP" /\ Returns(a, "enter", "add")
  \/ pc[a] = "add" /\ val' = val + 1 /\ Go(a, "wake") /\ UNCHANGED <<lvars, left>> /\ Rec(a)
  \/ pc[a] = "wake" /\ Calls(a, IF All THEN "bcast" ELSE "signal", "woke")
  \/ pc[a] = "woke" /\ Returns(a, IF All THEN "bcast" ELSE "signal", IF Held THEN "rel" ELSE "put")
  \/ pc[a] = "rel" /\ Calls(a, "leave", "outP")
  \/ pc[a] = "outP" /\ Returns(a, "leave", "put")
  \/ pc[a] = "put" /\ left' = [left EXCEPT ![a][2] = @ - 1] /\ Go(a, "next") /\ UNCHANGED <<lvars, val, hist>>
Hidden(a) == a \in DOMAIN pend /\ (Effect(a) \/ TimeOut(a, 0)) /\ UNCHANGED <<pc, val, left>> /\ Rec(a)
Stopped == \A a \in Actors : pc[a] = "stop"
Next == (\E a \in Actors : Prog(a) \/ Hidden(a)) \/ (~Record /\ Stopped /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A a \in Actors : WF_vars(Prog(a)) /\ WF_vars(Hidden(a))
Inside(a) == pc[a] \in {"test", "wake", "woke", "rel"} \/ (Held /\ pc[a] = "add")
OneInside == Held => \A a, b \in Actors : Inside(a) /\ Inside(b) => a = b
InsideHolds == Held => \A a \in Actors : Inside(a) => Holder(0) = a
Finishes == <>Stopped
Script == Stopped => PrintT(<<"SCRIPT", ToString(hist)>>)
=============================================================================
