------------------------------ MODULE JsonSpec ------------------------------
(* C07: what a JSON text denotes: a recursive-descent reading of RFC 8259 over     *)
(* code points.  Values are VarSpec-like records [t, n, s, k, a] with t one of      *)
(* null, num, str, arr, obj (keys in order of appearance).  Every result is        *)
(* [ok, v, i]: i is the next index (from 1).  ws is the whitespace allowed.         *)
EXTENDS Integers, Sequences
JV(t, n, s, k, a) == [t |-> t, n |-> n, s |-> s, k |-> k, a |-> a]
JNull == JV("null", << >>, << >>, << >>, << >>)
JFail == [ok |-> FALSE, v |-> JNull, i |-> 0]
JYes(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
At1(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE -1
RECURSIVE Ws(_, _, _)
Ws(x, i, ws) == IF At1(x, i) \in ws THEN Ws(x, i + 1, ws) ELSE i
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
Hex4(x, i) == IF \A j \in 0..3 : HexVal(At1(x, i + j)) >= 0
              THEN HexVal(x[i]) * 4096 + HexVal(x[i + 1]) * 256 + HexVal(x[i + 2]) * 16 + HexVal(x[i + 3]) ELSE -1
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
\* the characters of a string body from i, up to an unescaped quote or the end of x
\* [ok, s, i]
RECURSIVE JChars(_, _, _)
JChars(x, i, acc) ==
    IF i > Len(x) \/ At1(x, i) = 34 THEN [ok |-> TRUE, s |-> acc, i |-> i]
    ELSE IF x[i] < 32 \/ High(x[i]) \/ Low(x[i]) THEN [ok |-> FALSE, s |-> acc, i |-> i]
    ELSE IF x[i] # 92 THEN JChars(x, i + 1, Append(acc, x[i]))
    ELSE LET e == At1(x, i + 1)
             one == CASE e = 34 -> 34 [] e = 92 -> 92 [] e = 47 -> 47 [] e = 98 -> 8 [] e = 102 -> 12
                      [] e = 110 -> 10 [] e = 114 -> 13 [] e = 116 -> 9 [] OTHER -> -1
         IN  IF one >= 0 THEN JChars(x, i + 2, Append(acc, one))
             ELSE IF e # 117 THEN [ok |-> FALSE, s |-> acc, i |-> i]
             ELSE LET u == Hex4(x, i + 2) IN
                  IF u < 0 \/ Low(u) THEN [ok |-> FALSE, s |-> acc, i |-> i]
                  ELSE IF High(u)
                       THEN LET w == IF At1(x, i + 6) = 92 /\ At1(x, i + 7) = 117 THEN Hex4(x, i + 8) ELSE -1
                            IN  IF Low(w) THEN JChars(x, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (w - 56320)))
                                ELSE [ok |-> FALSE, s |-> acc, i |-> i]
                       ELSE JChars(x, i + 6, Append(acc, u))
\* what the body of a JSON string (without its quotes) denotes; ok only if it is all legal
Unescaped(x) == LET c == JChars(x, 1, << >>) IN [ok |-> c.ok /\ c.i = Len(x) + 1, s |-> c.s]
JStr(x, i) == IF At1(x, i) # 34 THEN JFail
              ELSE LET c == JChars(x, i + 1, << >>) IN
                   IF c.ok /\ At1(x, c.i) = 34 THEN JYes(JV("str", << >>, c.s, << >>, << >>), c.i + 1) ELSE JFail
RECURSIVE JDigits(_, _)
JDigits(x, i) == IF At1(x, i) \in 48..57 THEN JDigits(x, i + 1) ELSE i
JNum(x, i) == LET d == IF At1(x, i) = 45 THEN i + 1 ELSE i
                  e == IF At1(x, d) = 48 THEN d + 1 ELSE JDigits(x, d)
              IN  IF e = d THEN JFail ELSE JYes(JV("num", SubSeq(x, i, e - 1), << >>, << >>, << >>), e)
RECURSIVE JVal(_, _, _), JElems(_, _, _, _), JPairs(_, _, _, _, _)
JVal(x, i0, ws) ==
    LET i == Ws(x, i0, ws)
        c == At1(x, i)
        r == CASE c = 34 -> JStr(x, i)
               [] c = 45 \/ c \in 48..57 -> JNum(x, i)
               [] c = 110 -> IF SubSeq(x, i, i + 3) = <<110, 117, 108, 108>> THEN JYes(JNull, i + 4) ELSE JFail
               [] c = 91 -> LET j == Ws(x, i + 1, ws) IN
                            IF At1(x, j) = 93 THEN JYes(JV("arr", << >>, << >>, << >>, << >>), j + 1) ELSE JElems(x, i + 1, ws, << >>)
               [] c = 123 -> LET j == Ws(x, i + 1, ws) IN
                             IF At1(x, j) = 125 THEN JYes(JV("obj", << >>, << >>, << >>, << >>), j + 1) ELSE JPairs(x, i + 1, ws, << >>, << >>)
               [] OTHER -> JFail
    IN  IF r.ok THEN [r EXCEPT !.i = Ws(x, r.i, ws)] ELSE r
JElems(x, i, ws, acc) ==
    LET e == JVal(x, i, ws) IN
    IF ~e.ok THEN JFail
    ELSE IF At1(x, e.i) = 44 THEN JElems(x, e.i + 1, ws, Append(acc, e.v))
    ELSE IF At1(x, e.i) = 93 THEN JYes(JV("arr", << >>, << >>, << >>, Append(acc, e.v)), e.i + 1) ELSE JFail
JPairs(x, i, ws, ks, acc) ==
    LET k == JStr(x, Ws(x, i, ws))
        j == Ws(x, k.i, ws)
        e == JVal(x, j + 1, ws)
    IN  IF ~k.ok \/ At1(x, j) # 58 \/ ~e.ok THEN JFail
        ELSE IF At1(x, e.i) = 44 THEN JPairs(x, e.i + 1, ws, Append(ks, k.v.s), Append(acc, e.v))
        ELSE IF At1(x, e.i) = 125 THEN JYes(JV("obj", << >>, << >>, Append(ks, k.v.s), Append(acc, e.v)), e.i + 1) ELSE JFail
\* a whole text
Parsed(x, ws) == LET r == JVal(x, 1, ws) IN IF r.ok /\ r.i = Len(x) + 1 THEN r ELSE JFail
=============================================================================
