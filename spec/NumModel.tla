------------------------------ MODULE NumModel ------------------------------
(* C20: the denotation Parse itself is checked: every number within range,        *)
(* printed in any radix, with any decoration, parses back to itself with no error *)
(* and all characters used; anything appended that is no digit is trailing text.  *)
EXTENDS NumSpec, FiniteSets
CONSTANT Numbers
NumbersDef == {0, 1, 2, 7, 8, 9, 10, 35, 36, 37, 255, 1295, 46655, 65535, 65536, 2147483646, 2147483647, -1, -35, -36, -65536, -2147483647, -2147483647 - 1} \cup -5..5
VARIABLE n, radix, pre, prefix, up, post, done
RECURSIVE Pos(_, _, _)      \* digits of a non-negative number
DigitCh(d, u) == IF d < 10 THEN 48 + d ELSE IF u THEN 55 + d ELSE 87 + d
Pos(k, r, u) == IF k < r THEN <<DigitCh(k, u)>> ELSE Pos(k \div r, r, u) \o <<DigitCh(k % r, u)>>
\* printed from the negative side, so that the least number needs no special case
RECURSIVE PrintNeg(_, _, _)
PrintNeg(k, r, u) == IF k > -r THEN <<DigitCh(-k, u)>>
                     ELSE LET q == -((-(k + r)) \div r) - 1 IN PrintNeg(q, r, u) \o <<DigitCh(-(k - q * r), u)>>
Magnitude == IF n < 0 THEN PrintNeg(n, radix, up) ELSE Pos(n, radix, up)
Text == pre \o (IF n < 0 THEN <<45>> ELSE << >>) \o prefix \o Magnitude \o post
Init == /\ n \in Numbers /\ radix \in 2..36 /\ pre \in {<< >>, <<32>>, <<9, 12288>>} /\ up \in BOOLEAN
        /\ post \in {<< >>, <<32>>, <<32, 33>>, <<33>>} /\ done = FALSE
        /\ prefix \in ({<< >>} \cup (IF radix = 2 THEN {<<48, 98>>, <<48, 66>>} ELSE IF radix = 16 THEN {<<48, 120>>, <<48, 88>>} ELSE {}))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, radix, pre, prefix, up, post>>
Spec == Init /\ [][Next]_<<n, radix, pre, prefix, up, post, done>>
\* "0b..." without its prefix removed could be read as prefix: radix 2 never prints a b; radix 16 never an x
RoundTrip == LET p == Parse(Text, radix) IN
    /\ p.val = n
    /\ p.err = (IF post \in {<<33>>, <<32, 33>>} THEN 1 ELSE 0)
    /\ p.used = Len(Text) - (IF p.err = 1 THEN 1 ELSE 0)
Auto == LET p == Parse(Text, 0) IN  \* (a lone 0 followed by more text is taken for octal)
    (radix \in {2, 16} /\ prefix # << >>) \/ (radix = 10 /\ (n # 0 \/ post = << >>)) => p.val = n
Beyond == LET t == (IF n < 0 THEN <<45>> ELSE << >>) \o Magnitude \o <<48>> IN
    (n > 1073741823 \/ n < -1073741824) => Parse(t, radix).err = 3
=============================================================================
