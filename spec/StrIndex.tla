------------------------------ MODULE StrIndex ------------------------------
(* C02: finding the byte position of a character.  A transcription of the       *)
(* lookup design (start from the front, the end or the bookmark, whichever is   *)
(* nearest, and walk by encoded widths); for every pattern of widths up to      *)
(* MaxLen characters, and any sequence of lookups starting from no bookmark,    *)
(* each lookup finds the byte position that counting from the start gives.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Widths, MaxLen, Keep        \* Keep: distance from both ends at which a bookmark is kept
VARIABLES w, mc, mb, asked, found
vars == <<w, mc, mb, asked, found>>

RECURSIVE Bytes(_, _)
Bytes(s, n) == IF n = 0 THEN 0 ELSE s[n] + Bytes(s, n - 1)
Total == Bytes(w, Len(w))
\* walk forwards k characters from byte b = start of character c; and backwards
RECURSIVE Fwd(_, _, _)
Fwd(b, c, k) == IF k = 0 THEN b ELSE Fwd(b + w[c + 1], c + 1, k - 1)
RECURSIVE Bwd(_, _, _)
Bwd(b, c, k) == IF k = 0 THEN b ELSE Bwd(b - w[c], c - 1, k - 1)

Locate(n) ==
    LET sc == IF mc > 0 /\ n >= mc THEN mc ELSE 0
        sb == IF mc > 0 /\ n >= mc THEN mb ELSE 0
        ec == IF mc > 0 /\ n < mc THEN mc ELSE Len(w)
        eb == IF mc > 0 /\ n < mc THEN mb ELSE Total
    IN  IF n = 0 THEN 0
        ELSE IF n - sc < ec - n THEN Fwd(sb, sc, n - sc) ELSE Bwd(eb, ec, ec - n)

Init == /\ w \in UNION {[1..k -> Widths] : k \in 0..MaxLen}
        /\ mc = 0 /\ mb = 0 /\ asked = 0 /\ found = 0
Lookup(n) == /\ asked' = n /\ found' = Locate(n)
             /\ IF n > Keep /\ n < Len(w) - Keep THEN mc' = n /\ mb' = found' ELSE UNCHANGED <<mc, mb>>
             /\ UNCHANGED w
Next == \E n \in 0..Len(w) : Lookup(n)
Spec == Init /\ [][Next]_vars
Right == found = Bytes(w, asked)
MarkRight == mb = Bytes(w, mc)
=============================================================================
