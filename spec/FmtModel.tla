------------------------------ MODULE FmtModel ------------------------------
(* C22: Format as a machine that emits as it scans, on every format made of up to  *)
(* MaxParts parts; its output is compared with the concatenation of what each part *)
(* should contribute, and Join with the fold of its definition.                     *)
EXTENDS FmtSpec, TLC
CONSTANT MaxParts
Part == {"lit", "pct", "s", "d", "s1", "d2", "star", "prec", "wide"}
Text(p) == CASE p = "lit" -> <<97, 233>> [] p = "pct" -> <<37, 37>> [] p = "s" -> <<37, 115>> [] p = "d" -> <<37, 100>>
             [] p = "s1" -> <<37, 49, 36, 115>> [] p = "d2" -> <<37, 50, 36, 100>> [] p = "star" -> <<37, 42, 100>>
             [] p = "prec" -> <<37, 53, 46, 50, 115>> [] p = "wide" -> <<37, 48, 53, 100>>
Args == <<[t |-> "int", s |-> <<55>>], [t |-> "int", s |-> <<45, 49>>], [t |-> "int", s |-> <<48>>], [t |-> "int", s |-> <<57, 57>>]>>
VARIABLES parts, f, used, want, refused
vars == <<parts, f, used, want, refused>>
Init == parts = << >> /\ f = << >> /\ used = 0 /\ want = << >> /\ refused = FALSE
Arg(n) == IF n <= Len(Args) THEN Args[n].s ELSE << >>
Add(p) ==
    LET takes == CASE p \in {"s", "d", "prec", "wide"} -> 1 [] p = "star" -> 2 [] OTHER -> 0
        out == CASE p = "lit" -> Text(p) [] p = "pct" -> <<37>> [] p = "s1" -> Arg(1) [] p = "d2" -> Arg(2) [] OTHER -> Arg(used + takes)
    IN  /\ parts' = Append(parts, p) /\ f' = f \o Text(p) /\ used' = used + takes
        /\ want' = want \o out /\ refused' = (refused \/ (used + takes > Len(Args) /\ takes > 0))
Next == Len(parts) < MaxParts /\ \E p \in Part : Add(p)
Spec == Init /\ [][Next]_vars
Agrees == LET r == Format(f, Args) IN r.ok = ~refused /\ (r.ok => r.s = want)
RECURSIVE Fold(_, _, _)
Fold(a, j, i) == IF i > Len(a) THEN << >> ELSE (IF i > 1 THEN j ELSE << >>) \o a[i] \o Fold(a, j, i + 1)
Joins == LET a == [i \in 1..Len(parts) |-> IF i % 2 = 0 THEN << >> ELSE Text(parts[i])] IN Join(a, <<44>>) = Fold(a, <<44>>, 1)
=============================================================================
