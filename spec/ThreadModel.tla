----------------------------- MODULE ThreadModel -----------------------------
(* How Thread keeps its promise (C08): the critical sections of resume,
   ThreadProc, joinAny, join and the destructor, with the table of threads, the
   count of ended threads and the condition that joiners wait for.  A step is
   one critical section, one pthread_join, or one wakeup of the condition.

   The constants switch single protections off, to show each is needed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads,     \* 1..n, started in this order by actor 0
          Joiners,     \* actors that call joinAny until it returns null
          JoinOne,     \* threads that actor 0 joins by name, before it joins any
          Forget,      \* threads that actor 0 deletes unjoined once they ended
          FailStart,   \* threads that cannot be created
          WakeAll,     \* the end of a thread wakes every joiner
          EndLatched,  \* a thread's end is published under the latch
          Record,      \* keep the history of steps, to print schedules
          WaitLoop     \* joinAny looks at the table again after waiting
VARIABLES table, state, ended, pc, waiting, got, reported, done, hist
vars == <<table, state, ended, pc, waiting, got, reported, done, hist>>
Actors == {0} \cup Joiners
A(i) == 100 + i
Procs == Actors \cup {A(k) : k \in Threads}
Init == /\ table = {} /\ state = [k \in Threads |-> "New"] /\ ended = 0
        /\ pc = [p \in Procs |-> IF p = 0 THEN <<"start", 1>> ELSE IF p \in Joiners THEN <<"any">> ELSE <<"none">>]
        /\ waiting = {} /\ got = [a \in Actors |-> 0] /\ reported = <<>> /\ done = {} /\ hist = <<>>
Wake == IF WakeAll \/ waiting = {} THEN waiting' = {} ELSE \E a \in waiting : waiting' = waiting \ {a}
Rec(p) == hist' = IF Record THEN Append(hist, p) ELSE hist
\* ---- actor 0 -----------------------------------------------------------------------
After(k) == IF k + 1 \in Threads THEN <<"start", k + 1>> ELSE <<"names">>
Start(k) == /\ pc[0] = <<"start", k>>
            /\ IF k \in FailStart
               THEN /\ state' = [state EXCEPT ![k] = "Ended"] /\ UNCHANGED table
                    /\ pc' = [pc EXCEPT ![0] = After(k)] /\ done' = done \cup {k}
               ELSE /\ table' = table \cup {k} /\ UNCHANGED <<state, done>>
                    /\ pc' = [pc EXCEPT ![0] = After(k), ![A(k)] = <<"begin">>]
            /\ UNCHANGED <<ended, waiting, got, reported>> /\ Rec(0)
Names == /\ pc[0] = <<"names">>
         /\ LET todo == {k \in JoinOne : ~\E i \in DOMAIN reported : reported[i] = k} IN
            IF todo # {} THEN \E k \in todo :
               /\ k \in done                       \* pthread_join returns when it is done
               /\ pc' = [pc EXCEPT ![0] = <<"join", k>>] /\ UNCHANGED <<table, ended>>
            ELSE LET f == {k \in Forget : k \in table} IN
            IF f # {} THEN \E k \in f : k \in done /\ table' = table \ {k} /\ ended' = ended - 1 /\ UNCHANGED pc
            ELSE pc' = [pc EXCEPT ![0] = <<"any">>] /\ UNCHANGED <<table, ended>>
         /\ UNCHANGED <<state, waiting, got, reported, done>> /\ Rec(0)
Joined(k) == /\ pc[0] = <<"join", k>>
             /\ IF k \in table
                THEN /\ table' = table \ {k} /\ ended' = ended - 1 /\ UNCHANGED waiting
                ELSE UNCHANGED <<table, ended, waiting>>
             /\ reported' = Append(reported, k) /\ pc' = [pc EXCEPT ![0] = <<"names">>]
             /\ UNCHANGED <<state, got, done>> /\ Rec(0)
\* ---- a thread ------------------------------------------------------------------------
Begin(k) == /\ pc[A(k)] = <<"begin">> /\ state' = [state EXCEPT ![k] = "Started"] /\ pc' = [pc EXCEPT ![A(k)] = <<"end">>]
            /\ UNCHANGED <<table, ended, waiting, got, reported, done>> /\ Rec(A(k))
End(k) == /\ pc[A(k)] = <<"end">> /\ state' = [state EXCEPT ![k] = "Ended"]
          /\ IF EndLatched
             THEN /\ IF k \in table THEN ended' = ended + 1 /\ Wake ELSE UNCHANGED <<ended, waiting>>
                  /\ pc' = [pc EXCEPT ![A(k)] = <<"exit">>]
             ELSE UNCHANGED <<ended, waiting>> /\ pc' = [pc EXCEPT ![A(k)] = <<"count">>]
          /\ UNCHANGED <<table, got, reported, done>> /\ Rec(A(k))
Count(k) == /\ pc[A(k)] = <<"count">> /\ pc' = [pc EXCEPT ![A(k)] = <<"exit">>]
            /\ IF k \in table THEN ended' = ended + 1 /\ Wake ELSE UNCHANGED <<ended, waiting>>
            /\ UNCHANGED <<table, state, got, reported, done>> /\ Rec(A(k))
Exit(k) == /\ pc[A(k)] = <<"exit">> /\ pc' = [pc EXCEPT ![A(k)] = <<"none">>] /\ done' = done \cup {k}
           /\ UNCHANGED <<table, state, ended, waiting, got, reported>> /\ Rec(A(k))
\* ---- joinAny ---------------------------------------------------------------------------
TakeAny(a) ==
          /\ pc[a] = <<"any">> /\ a \notin waiting
          /\ IF table = {} THEN /\ pc' = [pc EXCEPT ![a] = <<"stop">>] /\ UNCHANGED <<table, ended, waiting, got>>
             ELSE IF ended = 0 THEN /\ waiting' = waiting \cup {a}
                                    /\ pc' = [pc EXCEPT ![a] = IF WaitLoop THEN <<"any">> ELSE <<"woken">>]
                                    /\ UNCHANGED <<table, ended, got>>
             ELSE \E k \in table : /\ state[k] = "Ended"
                                   /\ table' = table \ {k} /\ ended' = ended - 1 /\ got' = [got EXCEPT ![a] = k]
                                   /\ pc' = [pc EXCEPT ![a] = <<"reap">>]
                                   /\ UNCHANGED waiting
          /\ UNCHANGED <<state, reported, done>> /\ Rec(a)
Woken(a) == /\ pc[a] = <<"woken">> /\ a \notin waiting
            /\ LET c == {k \in table : state[k] = "Ended"} IN
               IF c = {} THEN pc' = [pc EXCEPT ![a] = <<"stop">>] /\ UNCHANGED <<table, ended, got, waiting>>
               ELSE \E k \in c : table' = table \ {k} /\ ended' = ended - 1 /\ got' = [got EXCEPT ![a] = k] /\ pc' = [pc EXCEPT ![a] = <<"reap">>] /\ UNCHANGED waiting
            /\ UNCHANGED <<state, reported, done>> /\ Rec(a)
Reap(a) == /\ pc[a] = <<"reap">> /\ got[a] \in done
           /\ reported' = Append(reported, got[a]) /\ pc' = [pc EXCEPT ![a] = <<"any">>]
           /\ UNCHANGED <<table, state, ended, waiting, got, done>> /\ Rec(a)
\* a wait may end for no reason
Spurious(a) == a \in waiting /\ waiting' = waiting \ {a} /\ UNCHANGED <<table, state, ended, pc, got, reported, done, hist>>
Terminated == ~Record /\ (\A a \in Actors : pc[a] = <<"stop">>) /\ (\A k \in Threads : k \in done) /\ UNCHANGED vars
Zero == Names \/ \E k \in Threads : Start(k) \/ Joined(k)
Thr(k) == Begin(k) \/ End(k) \/ Count(k) \/ Exit(k)
Joiner(a) == TakeAny(a) \/ Woken(a) \/ Reap(a)
Next == Zero \/ (\E k \in Threads : Thr(k)) \/ (\E a \in Actors : Joiner(a) \/ Spurious(a)) \/ Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(Zero) /\ (\A k \in Threads : WF_vars(Thr(k))) /\ (\A a \in Actors : WF_vars(Joiner(a)))
\* ---- what must hold --------------------------------------------------------------------
CountsEnded == EndLatched => ended = Cardinality({k \in table : state[k] = "Ended"})
Once == \A i, j \in DOMAIN reported : reported[i] = reported[j] => i = j
OnlyEnded == \A i \in DOMAIN reported : reported[i] \in done
Waiting == {k \in Threads : k \notin FailStart \cup Forget}
AllReported == (\A a \in Actors : pc[a] = <<"stop">>) => \A k \in Waiting : \E i \in DOMAIN reported : reported[i] = k
\* a joiner that stopped may have missed only threads that were started later
Termination == <>(\A a \in Actors : pc[a] = <<"stop">>)
\* printed at the end of a simulated behaviour
Script == (\A a \in Actors : pc[a] = <<"stop">>) /\ Threads \subseteq done => PrintT(<<"SCRIPT", ToString(hist)>>)
=============================================================================
