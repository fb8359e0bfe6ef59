------------------------------- MODULE CharSpec -------------------------------
(* C11: the properties of characters.  A character is an integer; those from
   2^31 up are negative, and are outside every table. *)
EXTENDS CharData, Sequences
RECURSIVE Search(_, _, _, _)
\* the entry (from, to, delta) that has c
Search(tab, c, lo, hi) == IF lo > hi THEN <<0, -1, 0>>
                          ELSE LET m == (lo + hi) \div 2 r == tab[m] IN
                               IF c < r[1] THEN Search(tab, c, lo, m - 1) ELSE IF c > r[2] THEN Search(tab, c, m + 1, hi) ELSE r
Map(tab, c) == IF c < 0 \/ c > 65535 THEN c ELSE c + Search(tab, c, 1, Len(tab))[3]
Upper(c) == Map(UpTab, c)
Lower(c) == Map(LowTab, c)
InTab(tab, c) == Search(tab, c, 1, Len(tab))[2] >= 0
Title(c) == IF c >= 0 /\ c < 1000 /\ InTab(TitleTab, c) THEN Map(TitleTab, c) ELSE Upper(c)
Digit(c) == IF c >= 0 /\ c < 65536 /\ InTab(DigitTab, c) THEN Map(DigitTab, c)
            ELSE IF c = 12295 THEN 0                            \* ideographic zero
            ELSE IF c \in 12321..12329 THEN c - 12320           \* Hangzhou
            ELSE -1
HexDigit(c) == IF Digit(c) >= 0 THEN Digit(c) ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Alphabetic(c) == c \in 0..65535 /\ (Upper(c) # c \/ Lower(c) # c \/ c \in Letters)
White(c) == c \in {32, 9, 10, 13, 160, 8232, 8233, 12288} \/ c \in 8192..8203
B(x) == IF x THEN 1 ELSE 0
F(f, c) == CASE f = "up" -> Upper(c) [] f = "low" -> Lower(c) [] f = "title" -> Title(c)
             [] f = "digit" -> Digit(c) [] f = "hex" -> HexDigit(c) [] f = "alpha" -> B(Alphabetic(c)) [] f = "white" -> B(White(c))
             [] f = "decimal" -> B(Digit(c) >= 0) [] f = "alnum" -> B(Alphabetic(c) \/ Digit(c) >= 0)
             [] f = "adigit" -> (IF c \in 48..57 THEN c - 48 ELSE -1)
             [] f = "ascii" -> B(c \in 0..127) [] f = "print" -> B(c \in 32..126) [] f = "latin" -> B(c \in 0..255)
             [] f = "uni" -> B(c \in 0..1114111) [] f = "u16" -> B(c \in 0..65535)
=============================================================================
