------------------------------ MODULE FmtSpec -------------------------------
(* C22: the text that joining and formatting must produce.  Texts are sequences  *)
(* of code points.  An argument is [t |-> "int"|"long"|"str"|"arr", s |-> text]:   *)
(* of a number, s is its decimal text ("long": one that does not fit an int).                                                  *)
EXTENDS Integers, Sequences

RECURSIVE Join(_, _)
Join(a, j) == IF a = << >> THEN << >> ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] \o j \o Join(Tail(a), j)

IsDig(c) == c \in 48..57
RECURSIVE SkipDigits(_, _)
SkipDigits(f, i) == IF i <= Len(f) /\ IsDig(f[i]) THEN SkipDigits(f, i + 1) ELSE i
Is(f, i, c) == i <= Len(f) /\ f[i] = c
Refused == [ok |-> FALSE, s |-> << >>]
\* the argument number n (from 1), rendered by conversion c
Rendered(args, n, c) ==
    IF n > Len(args) THEN Refused
    ELSE CASE c = 115 -> IF args[n].t # "arr" THEN [ok |-> TRUE, s |-> args[n].s] ELSE Refused
           [] OTHER   -> [ok |-> TRUE, s |-> IF args[n].t = "str" THEN <<34>> \o args[n].s \o <<34>> ELSE args[n].s]
IntArg(args, n) == n <= Len(args) /\ args[n].t = "int"
RECURSIVE Fmt(_, _, _, _, _)
\* i: next character (from 1); a: arguments used by sequence so far; out: text so far
Fmt(f, args, i, a, out) ==
    IF i > Len(f) THEN [ok |-> TRUE, s |-> out]
    ELSE IF f[i] # 37 \/ i = Len(f) THEN Fmt(f, args, i + 1, a, Append(out, f[i]))
    ELSE LET num == i + 2 < Len(f) /\ f[i + 1] \in 49..57 /\ f[i + 2] = 36
             i1 == IF num THEN i + 3 ELSE i + 1
             star1 == Is(f, i1, 42)
             i2 == IF star1 THEN i1 + 1 ELSE SkipDigits(f, i1)
             dot == Is(f, i2, 46)
             star2 == dot /\ Is(f, i2 + 1, 42)
             i3 == IF star2 THEN i2 + 2 ELSE IF dot THEN SkipDigits(f, i2 + 1) ELSE i2
             a1 == a + (IF star1 THEN 1 ELSE 0)
             a2 == a1 + (IF star2 THEN 1 ELSE 0)
             c == f[i3]
             r == Rendered(args, IF num THEN f[i + 1] - 48 ELSE a2 + 1, c)
         IN  IF (star1 /\ ~IntArg(args, a1)) \/ (star2 /\ ~IntArg(args, a2)) THEN Refused
             ELSE IF c = 37 THEN Fmt(f, args, i3 + 1, a2, Append(out, 37))
             ELSE IF ~r.ok THEN Refused
             ELSE Fmt(f, args, i3 + 1, IF num THEN a2 ELSE a2 + 1, out \o r.s)
Format(f, args) == Fmt(f, args, 1, 0, << >>)
\* A string taken from an array of strings a: its last, or the one at position k (from 0); what is left behind
Taken(a, what, k) == IF what \in {"last", "pull"} THEN a[Len(a)] ELSE a[k + 1]
Rest(a, what, k) == CASE what = "pull" -> SubSeq(a, 1, Len(a) - 1)
                      [] what = "delete" -> SubSeq(a, 1, k) \o SubSeq(a, k + 2, Len(a))
                      [] OTHER -> a
=============================================================================
