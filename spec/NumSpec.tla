------------------------------ MODULE NumSpec -------------------------------
(* C20: what text denotes as an integer in a radix, within 32 bits.             *)
EXTENDS Integers, Sequences

White == {9, 10, 13, 32, 160, 8192, 12288}       \* of the characters the drivers use
\* digit value of a character, or -1: any script's decimal digits, then the ASCII letters
Chars == INSTANCE CharSpec
DigitVal(c) == IF c \in 48..57 THEN c - 48
               ELSE IF Chars!Digit(c) >= 0 THEN Chars!Digit(c)
               ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE -1
IsDigit(c, radix) == DigitVal(c) >= 0 /\ DigitVal(c) < radix
ChAt(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF i < Len(s) /\ s[i + 1] \in White THEN SkipWhite(s, i + 1) ELSE i
\* magnitudes as <<high, low>> 16-bit halves; big when 2^32 or more
RECURSIVE Digits(_, _, _, _)
Digits(s, i, radix, m) ==
    IF i < Len(s) /\ IsDigit(s[i + 1], radix)
    THEN LET l == m.l * radix + DigitVal(s[i + 1])
             h == m.h * radix + l \div 65536
         IN  Digits(s, i + 1, radix, IF m.big \/ h > 65535 THEN [h |-> 0, l |-> 0, big |-> TRUE]
                                     ELSE [h |-> h, l |-> l % 65536, big |-> FALSE])
    ELSE [m |-> m, i |-> i]
Fits(m, neg) == ~m.big /\ (m.h < 32768 \/ (neg /\ m.h = 32768 /\ m.l = 0))
Value(m, neg) == IF m.h = 32768 THEN -2147483647 - 1
                 ELSE IF neg THEN -(m.h * 65536 + m.l) ELSE m.h * 65536 + m.l
Bs == {98, 66}
Xs == {120, 88}
\* [err, val, used]: err 0 none, 1 trailing text, 2 no digits, 3 overflow, 4 not a number, 5 illegal radix
Parse(s, radix0) ==
    IF radix0 < 0 \/ radix0 > 36 THEN [err |-> 5, val |-> 0, used |-> 0] ELSE
    LET i0 == SkipWhite(s, 0)
        c0 == ChAt(s, i0)
        sign == i0 < Len(s) /\ c0 \in {43, 45}
        neg == sign /\ c0 = 45
        i1 == IF sign THEN SkipWhite(s, i0 + 1) ELSE i0
        zero == DigitVal(ChAt(s, i1)) = 0 /\ i1 + 1 < Len(s)
        nx == ChAt(s, i1 + 1)
        bin == zero /\ nx \in Bs /\ radix0 \in {0, 2}
        hex == zero /\ nx \in Xs /\ radix0 \in {0, 16}
        radix == IF bin THEN 2 ELSE IF hex THEN 16 ELSE IF radix0 # 0 THEN radix0
                 ELSE IF zero /\ nx \notin Bs /\ nx \notin Xs THEN 8 ELSE 10
        i2 == IF bin \/ hex THEN i1 + 2 ELSE i1
        d == Digits(s, i2, radix, [h |-> 0, l |-> 0, big |-> FALSE])
        i3 == SkipWhite(s, d.i)
    IN  IF i1 = Len(s) \/ i2 = Len(s) THEN [err |-> 2, val |-> 0, used |-> Len(s)]
        ELSE IF d.i = i2 THEN [err |-> 4, val |-> 0, used |-> i2]
        ELSE IF ~Fits(d.m, neg) THEN [err |-> 3, val |-> 0, used |-> -1]
        ELSE IF i3 # Len(s) THEN [err |-> 1, val |-> Value(d.m, neg), used |-> i3]
        ELSE [err |-> 0, val |-> Value(d.m, neg), used |-> i3]
=============================================================================
