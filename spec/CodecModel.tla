------------------------------ MODULE CodecModel ------------------------------
(* What CodecSpec's definitions guarantee, over every text of Bytes up to a
   length, every edge character, and every text of Units. *)
EXTENDS CodecSpec, FiniteSets, TLC
CONSTANTS MaxLen, MaxUnits
Bytes == {0, 65, 128, 191, 194, 195, 226, 240, 249, 253, 255}
Units == {0, 65, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
Edge == {0, 1, 127, 128, 255, 256, 2047, 2048, 4095, 4096, 32767, 32768, 65533, 65535}
Chars == {<<h, l>> : h \in {0, 1, 2, 15, 16, 31, 32, 255, 256, 1023, 1024, 16383, 16384, 32767, 32768, 32769, 49152, 65534, 65535}, l \in Edge}
VARIABLES text, units, ch
Init == /\ text = <<>> /\ units = <<>> /\ ch \in Chars
\* characters, byte texts and unit texts are independent
Next == \/ ch = <<0, 0>> /\ units = <<>> /\ Len(text) < MaxLen /\ \E b \in Bytes : text' = Append(text, b) /\ UNCHANGED <<units, ch>>
        \/ ch = <<0, 0>> /\ text = <<>> /\ Len(units) < MaxUnits /\ \E u \in Units : units' = Append(units, u) /\ UNCHANGED <<text, ch>>
Spec == Init /\ [][Next]_<<text, units, ch>>
RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d).n + Total(Tail(d))
\* a sequence longer than it need be, or a marker written as a character
Odd(s) == \E i \in 1..Len(s) : SeqLen(s, i) > 0 /\ EncLen(Step8(s, i).c) # SeqLen(s, i)
\* how UTF8Backup finds it: the nearest first byte, if what it begins reaches here
Nearest(s, p) == LET f == {i \in 1..(p - 1) : First(s[i]) /\ p - i <= 6} IN
                 IF f = {} THEN p - 1
                 ELSE LET i == CHOOSE x \in f : \A y \in f : y <= x IN
                      IF i + (IF SeqLen(s, i) = 0 THEN 1 ELSE SeqLen(s, i)) >= p THEN i ELSE p - 1
CharRoundTrip == LET e == Enc8(ch) IN /\ Len(e) = EncLen(ch)
                                      /\ ~Illegal(ch) => Step8(e, 1) = [c |-> ch, n |-> Len(e)]
                                      /\ \A n \in 1..6 : Step8(PadZero(n), 1) = [c |-> <<0, 0>>, n |-> n]
                 /\ (ch[1] \in 1..16 \/ (ch[1] = 0 /\ ~High(ch[2]) /\ ~Low(ch[2]))) => Step16(Enc16(ch), 1) = [c |-> ch, n |-> Len(Enc16(ch))]
Progress == LET d == Fwd8(text, 1) IN Total(d) = Len(text) /\ \A i \in DOMAIN d : d[i].n \in 1..6
Same == ~Odd(text) => EncAll(Fwd8(text, 1)) = text
\* any byte that can begin a character is at a boundary, so one can resynchronise
Resync == \A i \in 1..Len(text) : First(text[i]) => i \in Bounds(text, 1)
Backward == \A p \in 2..(Len(text) + 1) : Nearest(text, p) = BackTo(text, p)
Backwards == \A p \in Bounds(text, 1) \ {1} : Nearest(text, p) = BackTo(text, p)
Units16 == Total(Fwd16(units, 1)) = Len(units)
=============================================================================
