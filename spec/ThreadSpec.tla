----------------------------- MODULE ThreadSpec -----------------------------
(* C08: what starting, joining and joining any thread may do, at the level of
   the calls made and returned.  A started thread is outstanding until it is
   taken: by joinAny, by join, or by deleting it after it ended. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES live,    \* threads started (the call was made) and not taken
          ran,     \* threads whose run() has begun
          going,   \* threads that have asked to exit
          ended,   \* threads whose run() has ended
          failed,  \* threads that could not be started
          pend     \* actor -> call in progress [f, k, done]
tvars == <<live, ran, going, ended, failed, pend>>

TInit == live = {} /\ ran = {} /\ going = {} /\ ended = {} /\ failed = {} /\ pend = <<>>

Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Drop(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]

Call(a, f, k) ==
  /\ a \notin DOMAIN pend
  /\ f = "start" => k \notin live \cup ran \cup failed
  /\ f \in {"join", "del", "forget"} => k > 0
  /\ pend' = Put(pend, a, [f |-> f, k |-> k, done |-> FALSE])
  /\ live' = IF f = "forget" THEN live \ {k} ELSE live
  /\ f = "del" => k \notin live          \* a contract of the scenario
  /\ f = "forget" => k \in live /\ k \in ended
  /\ UNCHANGED <<ran, going, ended, failed>>

\* Hidden steps: the moment at which a call takes its effect
Take(a, k) ==
  /\ a \in DOMAIN pend /\ pend[a].f \in {"joinany", "join"} /\ ~pend[a].done
  /\ k \in live /\ k \in ended \cup going
  /\ pend[a].f = "join" => pend[a].k = k
  /\ live' = live \ {k}
  /\ pend' = [pend EXCEPT ![a].done = TRUE, ![a].k = k]
  /\ UNCHANGED <<ran, going, ended, failed>>
Empty(a) ==
  /\ a \in DOMAIN pend /\ pend[a].f = "joinany" /\ ~pend[a].done
  /\ live = {}
  /\ pend' = [pend EXCEPT ![a].done = TRUE, ![a].k = 0]
  /\ UNCHANGED <<live, ran, going, ended, failed>>
Taken(a) ==      \* join of a thread that joinAny took first
  /\ a \in DOMAIN pend /\ pend[a].f = "join" /\ ~pend[a].done
  /\ pend[a].k \notin live
  /\ pend' = [pend EXCEPT ![a].done = TRUE]
  /\ UNCHANGED <<live, ran, going, ended, failed>>
Started(a) ==
  /\ a \in DOMAIN pend /\ pend[a].f = "start" /\ ~pend[a].done
  /\ live' = live \cup {pend[a].k}
  /\ pend' = [pend EXCEPT ![a].done = TRUE]
  /\ UNCHANGED <<ran, going, ended, failed>>
\* a thread that could not be created never runs and is not waited for
StartFails(a, k) ==
  /\ a \in DOMAIN pend /\ pend[a].f = "start" /\ ~pend[a].done /\ pend[a].k = k
  /\ failed' = failed \cup {k}
  /\ pend' = [pend EXCEPT ![a].done = TRUE]
  /\ UNCHANGED <<live, ran, going, ended>>
Hidden == \E a \in DOMAIN pend : Started(a) \/ Empty(a) \/ Taken(a) \/ \E k \in live : Take(a, k)

Ret(a, f, k) ==
  /\ a \in DOMAIN pend /\ pend[a].f = f
  /\ f \in {"joinany", "join", "start"} => pend[a].done /\ pend[a].k = k
  \* a thread joined has run to its end
  /\ f \in {"joinany", "join"} /\ k > 0 => k \in ended
  \* the current thread is the one asking; a thread that is none of the library's has none
  /\ f = "cur" => k = IF a > 100 THEN a - 100 ELSE 0
  /\ pend' = Drop(pend, a)
  /\ UNCHANGED <<live, ran, going, ended, failed>>
RunBegin(k) ==
  /\ k \notin ran /\ k \notin failed
  /\ k \in live
  /\ ran' = ran \cup {k} /\ UNCHANGED <<live, going, ended, failed, pend>>
Exiting(k) ==
  /\ k \in ran \ (ended \cup going)
  /\ going' = going \cup {k} /\ UNCHANGED <<live, ran, ended, failed, pend>>
RunEnd(k) ==
  /\ k \in ran \ ended
  /\ ended' = ended \cup {k} /\ UNCHANGED <<live, ran, going, failed, pend>>
\* Everything started and not failed has run, and no thread is left neither joined nor detached
Finished(unreaped) ==
  /\ pend = <<>> /\ ran = ended /\ live \subseteq ended /\ unreaped = Cardinality(live)
=============================================================================
