------------------------------- MODULE CharMemo -------------------------------
(* C11: remembering the last table entry used, by all threads together, changes no
   answer.  A small table of the same form; one step is one access to the memo. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxQ,
          ReadOnce,     \* the memo is read once per question
          Own           \* each table has a memo of its own
Up == <<<<2, 4, 10>>, <<5, 5, -1>>, <<7, 8, 3>>>>
Low == <<<<1, 1, 5>>, <<4, 6, -2>>, <<8, 8, 1>>, <<9, 9, 0>>>>
Tab == [up |-> Up, low |-> Low]
Chars == 0..10
VARIABLES memo, pc, q, seen, ans, asked
vars == <<memo, pc, q, seen, ans, asked>>
At(t) == IF Own THEN t ELSE "up"
Truth(t, c) == IF \E i \in DOMAIN Tab[t] : c \in Tab[t][i][1]..Tab[t][i][2]
               THEN c + Tab[t][CHOOSE i \in DOMAIN Tab[t] : c \in Tab[t][i][1]..Tab[t][i][2]][3] ELSE c
Init == memo = [t \in {"up", "low"} |-> 1] /\ pc = [t \in Threads |-> "idle"] /\ q = [t \in Threads |-> <<"up", 0>>] /\ seen = [t \in Threads |-> 1]
        /\ ans = [t \in Threads |-> 0] /\ asked = [t \in Threads |-> 0]
Ask(t) == /\ pc[t] = "idle" /\ asked[t] < MaxQ /\ asked' = [asked EXCEPT ![t] = @ + 1]
          /\ \E f \in {"up", "low"}, c \in Chars : q' = [q EXCEPT ![t] = <<f, c>>] /\ ans' = [ans EXCEPT ![t] = Truth(f, c)]
          /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<memo, seen>>
Read(t) == pc[t] = "read" /\ seen' = [seen EXCEPT ![t] = memo[At(q[t][1])]] /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<memo, q, ans, asked>>
Entry(t, i) == LET tab == Tab[q[t][1]] IN tab[IF i > Len(tab) THEN Len(tab) ELSE i]
Hit(t, i) == q[t][2] \in Entry(t, i)[1]..Entry(t, i)[2]
Test(t) == /\ pc[t] = "test" /\ IF seen[t] > Len(Tab[q[t][1]]) THEN pc' = [pc EXCEPT ![t] = "wrong"]      \* beyond the table
                               ELSE IF Hit(t, seen[t]) THEN pc' = [pc EXCEPT ![t] = IF ReadOnce THEN "say" ELSE "again"] ELSE pc' = [pc EXCEPT ![t] = "search"]
           /\ UNCHANGED <<memo, q, seen, ans, asked>>
Again(t) == pc[t] = "again" /\ seen' = [seen EXCEPT ![t] = memo[At(q[t][1])]] /\ pc' = [pc EXCEPT ![t] = "say"] /\ UNCHANGED <<memo, q, ans, asked>>
\* the answer by way of the memo
Say(t) == /\ pc[t] = "say" /\ pc' = [pc EXCEPT ![t] = IF q[t][2] + Entry(t, seen[t])[3] = ans[t] THEN "idle" ELSE "wrong"] /\ UNCHANGED <<memo, q, seen, ans, asked>>
SearchIt(t) == /\ pc[t] = "search" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<q, seen, ans, asked>>
               /\ LET tab == Tab[q[t][1]] f == {i \in DOMAIN tab : q[t][2] \in tab[i][1]..tab[i][2]} IN
                  memo' = IF f = {} THEN memo ELSE [memo EXCEPT ![At(q[t][1])] = CHOOSE i \in f : TRUE]
Next == \E t \in Threads : Ask(t) \/ Read(t) \/ Test(t) \/ Again(t) \/ Say(t) \/ SearchIt(t)
Spec == Init /\ [][Next]_vars
NeverWrong == \A t \in Threads : pc[t] # "wrong"
=============================================================================
