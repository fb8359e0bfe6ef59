----------------------------- MODULE XformModel -----------------------------
(* C21: the transform loop as a design: an input cursor and an output buffer    *)
(* with a capacity that must be regrown before each write of a replacement      *)
(* (whose encoded size is unrelated to that of the text consumed), room being   *)
(* kept for the terminating NUL.  TLC checks, for every text over characters of *)
(* different widths, starting point and function of the catalogue, that the     *)
(* loop writes inside its buffer and ends with exactly StrSpec!Transformed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Chars, MaxLen
R == {0}
VARIABLES k, after, src, pos, out, used, cap, done
vars == <<k, after, src, pos, out, used, cap, done>>
A == INSTANCE StrSpec WITH regs <- [r \in R |-> src], Reg <- R

Slack == 7      \* any one character and the NUL
Init == /\ k \in 0..9 /\ src \in UNION {[1..n -> Chars] : n \in 0..MaxLen} /\ after \in -1..MaxLen
        /\ pos = 0 /\ out = << >> /\ used = 0 /\ done = FALSE
        /\ cap = A!Utf8NumBytes(src) + Slack
Grow(need) == IF used + need + 1 > cap THEN used + need + Slack ELSE cap
\* one character at a time is written, growing first when it (and the NUL) would not fit
CopyOne == /\ ~done /\ pos < Len(src) /\ pos <= after
           /\ LET c == src[pos + 1] IN
              /\ cap' = Grow(A!Utf8Len(c)) /\ used' = used + A!Utf8Len(c) /\ out' = Append(out, c)
           /\ pos' = pos + 1 /\ UNCHANGED <<k, after, src, done>>
Replace == /\ ~done /\ pos < Len(src) /\ pos > after
           /\ LET rest == A!Drop(src, pos)
                  x == A!X(k, rest)
                  b == A!Utf8NumBytes(x.out)
                  tail == IF x.n = 0 THEN rest ELSE << >>     \* nothing consumed: copy the rest and stop
                  b2 == A!Utf8NumBytes(tail)
              IN /\ cap' = Grow(b + b2) /\ used' = used + b + b2 /\ out' = out \o x.out \o tail
                 /\ pos' = IF x.n = 0 THEN Len(src) ELSE pos + x.n
           /\ UNCHANGED <<k, after, src, done>>
Finish == ~done /\ pos = Len(src) /\ done' = TRUE /\ UNCHANGED <<k, after, src, pos, out, used, cap>>
Next == CopyOne \/ Replace \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fits == used + 1 <= cap /\ used = A!Utf8NumBytes(out)
Result == done => out = A!Transformed(k, src, after)
Ends == <>done
=============================================================================
