------------------------------- MODULE CharTrace -------------------------------
(* C11: answers of the real functions, in any order and by any thread. *)
EXTENDS CharSpec, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
\* run-length coded: runs of equal differences from the character (case) or equal values
Mapping == {"up", "low", "title"}
RECURSIVE RunsOK(_, _)
RunsOK(c, i) == IF i > Len(e.runs) THEN TRUE
                ELSE LET n == e.runs[i][1] v == e.runs[i][2] IN
                     /\ \A k \in 0..(n - 1) : LET x == c + k * e.step IN F(e.f, x) = (IF e.f \in Mapping THEN x + v ELSE v)
                     /\ RunsOK(c + n * e.step, i + 1)
Good == CASE e.op \in {"begin", "conf", "end"} -> TRUE
          [] e.op = "run" -> RunsOK(e.from, 1)
          [] e.op = "q" -> F(e.f, e.c) = e.v
          [] e.op = "qs" -> \A i \in DOMAIN e.c : F(e.f[i], e.c[i]) = e.v[i]
          [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Good
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
