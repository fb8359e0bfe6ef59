-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 encoding of code points below 2^31 (TLC integers are 32 bit; the      *)
(* codec property C10 uses split words for the rest).                          *)
EXTENDS Integers, Sequences

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3
              ELSE IF c < 2097152 THEN 4 ELSE IF c < 67108864 THEN 5 ELSE 6
Cont(c, k) == 128 + ((c \div k) % 64)           \* continuation byte holding bits of c above k
Utf8Enc(c) ==
    CASE c < 128      -> <<c>>
      [] c < 2048     -> <<192 + c \div 64, Cont(c, 1)>>
      [] c < 65536    -> <<224 + c \div 4096, Cont(c, 64), Cont(c, 1)>>
      [] c < 2097152  -> <<240 + c \div 262144, Cont(c, 4096), Cont(c, 64), Cont(c, 1)>>
      [] c < 67108864 -> <<248 + c \div 16777216, Cont(c, 262144), Cont(c, 4096), Cont(c, 64), Cont(c, 1)>>
      [] OTHER        -> <<252 + c \div 1073741824, Cont(c, 16777216), Cont(c, 262144), Cont(c, 4096), Cont(c, 64), Cont(c, 1)>>
RECURSIVE Utf8Bytes(_)
Utf8Bytes(s) == IF s = << >> THEN << >> ELSE Utf8Enc(Head(s)) \o Utf8Bytes(Tail(s))
RECURSIVE Utf8NumBytes(_)
Utf8NumBytes(s) == IF s = << >> THEN 0 ELSE Utf8Len(Head(s)) + Utf8NumBytes(Tail(s))
=============================================================================
