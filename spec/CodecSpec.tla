------------------------------- MODULE CodecSpec -------------------------------
(* C10: UTF-8 (extended to a full 32 bits) and UTF-16.  A character is a pair of
   16-bit halves <<high, low>>, since TLC's integers have 32 bits with a sign. *)
EXTENDS Integers, Sequences
\* ---- UTF-8 ----
First(b) == b \div 64 # 2                       \* may begin a character
LeadLen(b) == CASE b < 128 -> 1 [] b < 192 -> 0 [] b < 224 -> 2 [] b < 240 -> 3 [] b < 248 -> 4 [] b < 252 -> 5 [] OTHER -> 6
LeadBits(b) == LET n == LeadLen(b) IN CASE n = 1 -> b [] n = 2 -> b % 32 [] n = 3 -> b % 16 [] n = 4 -> b % 8 [] OTHER -> b % 4
IllegalByte(b) == <<32768, b>>                    \* 0x800000bb stands for a byte that is part of no character
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0     \* there is a NUL at the end
\* the length of the well-formed sequence at i, 0 if none
SeqLen(s, i) == LET n == LeadLen(s[i]) IN IF n > 0 /\ \A k \in 1..(n - 1) : ~First(At(s, i + k)) THEN n ELSE 0
Shift6(c, g) == <<(c[1] * 64 + c[2] \div 1024) % 65536, (c[2] % 1024) * 64 + g>>
RECURSIVE Gather(_, _, _, _)
Gather(s, i, k, c) == IF k = 0 THEN c ELSE Gather(s, i + 1, k - 1, Shift6(c, s[i] % 64))
Step8(s, i) == LET n == SeqLen(s, i) IN IF n = 0 THEN [c |-> IllegalByte(s[i]), n |-> 1] ELSE [c |-> Gather(s, i + 1, n - 1, <<0, LeadBits(s[i])>>), n |-> n]
RECURSIVE Fwd8(_, _)
Fwd8(s, i) == IF i > Len(s) THEN <<>> ELSE LET d == Step8(s, i) IN <<d>> \o Fwd8(s, i + d.n)
RECURSIVE Bounds(_, _)
Bounds(s, i) == IF i > Len(s) THEN {i} ELSE {i} \cup Bounds(s, i + Step8(s, i).n)
\* Illegal characters are written as the byte they stand for, as is 0xFFFFFFFF (no character)
Illegal(c) == (c[1] = 32768 /\ c[2] < 256) \/ c = <<65535, 65535>>
EncLen(c) == CASE Illegal(c) -> 1
               [] c[1] = 0 /\ c[2] < 128 -> 1 [] c[1] = 0 /\ c[2] < 2048 -> 2 [] c[1] = 0 -> 3
               [] c[1] < 32 -> 4 [] c[1] < 1024 -> 5 [] OTHER -> 6
Group(c, k) == CASE k = 0 -> c[2] % 64 [] k = 1 -> (c[2] \div 64) % 64 [] k = 2 -> c[2] \div 4096 + 16 * (c[1] % 4)
                 [] k = 3 -> (c[1] \div 4) % 64 [] k = 4 -> (c[1] \div 256) % 64 [] k = 5 -> c[1] \div 16384
LeadBase == <<0, 192, 224, 240, 248, 252>>
Enc8(c) == LET n == EncLen(c) IN
           IF n = 1 THEN <<c[2] % 256>>
           ELSE [i \in 1..n |-> IF i = 1 THEN LeadBase[n] + Group(c, n - 1) ELSE 128 + Group(c, n - i)]
RECURSIVE EncAll(_)
EncAll(d) == IF d = <<>> THEN <<>> ELSE Enc8(Head(d).c) \o EncAll(Tail(d))
PadZero(n) == IF n <= 1 THEN <<0>> ELSE [i \in 1..n |-> IF i = 1 THEN LeadBase[n] ELSE 128]
\* where stepping back from p (a boundary, or within a well-formed sequence) leads
BackTo(s, p) == LET b == {x \in Bounds(s, 1) : x < p} IN CHOOSE x \in b : \A y \in b : y <= x
\* ---- UTF-16 ----
High(u) == u \div 1024 = 54     \* D800..DBFF
Low(u) == u \div 1024 = 55
Enc16(c) == IF c[1] = 0 THEN <<c[2]>> ELSE <<55296 + (c[1] - 1) * 64 + c[2] \div 1024, 56320 + (c[2] % 1024)>>
Step16(s, i) == IF ~High(s[i]) /\ ~Low(s[i]) THEN [c |-> <<0, s[i]>>, n |-> 1]
                ELSE IF High(s[i]) /\ Low(At(s, i + 1)) THEN [c |-> <<1 + (s[i] - 55296) \div 64, (s[i] % 64) * 1024 + s[i + 1] - 56320>>, n |-> 2]
                ELSE [c |-> <<0, 65533>>, n |-> 1]
RECURSIVE Fwd16(_, _)
Fwd16(s, i) == IF i > Len(s) THEN <<>> ELSE LET d == Step16(s, i) IN <<d>> \o Fwd16(s, i + d.n)
Swab(u) == (u % 256) * 256 + u \div 256
=============================================================================
