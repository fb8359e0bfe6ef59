------------------------------ MODULE StrSpec -------------------------------
(* C01, C02, C21: strings as abstract values.  regs[r] is the sequence of code *)
(* points the live string r denotes; one action per API operation.             *)
EXTENDS SeqOps, Utf8, FiniteSets

CONSTANT Reg
VARIABLE regs

Upd(r, s) == regs' = [regs EXCEPT ![r] = s]
Skip == UNCHANGED regs
S(r) == regs[r]
Init == regs = [r \in Reg |-> << >>]

New(r, s)            == Upd(r, s)
Copy(r, s)           == Upd(r, S(s))
Substr(r, s, at, n)  == Upd(r, IF n < -1 THEN << >> ELSE Slice(S(s), at, n))
HeadOf(r, s, n)      == Upd(r, Slice(S(s), 0, n))
TailOf(r, s, n)      == n <= Len(S(s)) /\ Upd(r, Slice(S(s), Len(S(s)) - n, n))
ShorterOf(r, s, n)   == n <= Len(S(s)) /\ Upd(r, Slice(S(s), 0, Len(S(s)) - n))
PlusLit(r, s, v)     == Upd(r, S(s) \o v)
LitPlus(r, v, s)     == Upd(r, v \o S(s))
Plus(r, s, t)        == Upd(r, S(s) \o S(t))
Insert(r, at, s)     == at \in 0..Len(S(r)) /\ Upd(r, InsertSeq(S(r), at, S(s)))
AppendStr(r, s)      == Upd(r, S(r) \o S(s))
AppendChar(r, c)     == Upd(r, Append(S(r), c))
PrependStr(r, s)     == Upd(r, S(s) \o S(r))
Mul(r, s, n)         == Upd(r, Repeat(S(s), n))

\* --- case change: character by character, as C11 has it ------------------------
Cd == INSTANCE CharSpec
LowerCh(c) == IF c < 128 THEN (IF c \in 65..90 THEN c + 32 ELSE c) ELSE Cd!Lower(c)
UpperCh(c) == IF c < 128 THEN (IF c \in 97..122 THEN c - 32 ELSE c) ELSE Cd!Upper(c)
Lower(s) == [i \in 1..Len(s) |-> LowerCh(s[i])]
Upper(s) == [i \in 1..Len(s) |-> UpperCh(s[i])]
ToLower(r) == Upd(r, Lower(S(r)))
ToUpper(r) == Upd(r, Upper(S(r)))
AsLower(r, s) == Upd(r, Lower(S(s)))
AsUpper(r, s) == Upd(r, Upper(S(s)))

\* --- transform: the catalogue of functions the drivers pass -------------------------
\* X(k, rest) = [n |-> characters consumed, out |-> replacement]
X(k, s) ==
    CASE k = 0 -> [n |-> 1, out |-> <<s[1]>>]
      [] k = 1 -> [n |-> 1, out |-> << >>]
      [] k = 2 -> [n |-> 1, out |-> <<s[1], s[1]>>]
      [] k = 3 -> IF Len(s) >= 2 THEN [n |-> 2, out |-> <<s[2], s[1]>>] ELSE [n |-> 1, out |-> <<s[1]>>]
      [] k = 4 -> IF s[1] = 98 THEN [n |-> 0, out |-> <<33>>] ELSE [n |-> 1, out |-> <<45, s[1]>>]
      [] k = 5 -> [n |-> 1, out |-> <<233, 128512, 120>>]
      [] k = 6 -> [n |-> Len(s), out |-> <<8364>>]
      [] k = 7 -> [n |-> 0, out |-> << >>]
      [] k = 8 -> IF s[1] < 128 THEN [n |-> 1, out |-> <<8364, s[1]>>] ELSE [n |-> 1, out |-> <<97>>]
      [] k = 9 -> [n |-> Min2(3, Len(s)), out |-> [i \in 1..12 |-> 97 + i]]
RECURSIVE Xform(_, _, _)
Xform(k, s, acc) == IF s = << >> THEN acc
                    ELSE LET x == X(k, s)
                         IN IF x.n = 0 THEN acc \o x.out \o s
                            ELSE Xform(k, Drop(s, x.n), acc \o x.out)
\* characters up to and including index `after` are copied unchanged
Transformed(k, s, after) == LET p == Min2(after + 1, Len(s)) IN Xform(k, Drop(s, p), Take(s, p))
Transform(r, k, after) == Upd(r, Transformed(k, S(r), after))

\* --- JSON escaping (C07) -----------------------------------------------------------
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
U4(u) == <<92, 117, Hex(u \div 4096), Hex((u \div 256) % 16), Hex((u \div 16) % 16), Hex(u % 16)>>

\* --- queries -------------------------------------------------------------------------
CmpResult(r, s) == LexCmp(S(r), S(s))
FindCh(r, c, after)   == FirstIdx(S(r), after, LAMBDA x : x = c)
RFindCh(r, c, before) == LastIdx(S(r), before, LAMBDA x : x = c)
FindStr(r, t, after)  ==
    LET c == {i \in (after + 1)..(Len(S(r)) - Len(t)) : OccursAt(S(r), t, i)}
    IN  IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i <= j
RFindStr(r, t, before) ==
    LET c == {i \in 0..(IF before = -1 THEN Len(S(r)) ELSE before - 1) : OccursAt(S(r), t, i)}
    IN  IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i >= j
InSet(t) == {t[i] : i \in 1..Len(t)}
FindAny(r, t, after)   == FirstIdx(S(r), after, LAMBDA x : x \in InSet(t))
RFindAny(r, t, before) == LastIdx(S(r), before, LAMBDA x : x \in InSet(t))
FindNot(r, t, after)   == FirstIdx(S(r), after, LAMBDA x : x \notin InSet(t))
RFindNot(r, t, before) == LastIdx(S(r), before, LAMBDA x : x \notin InSet(t))
CharAt(r, i) == IF i = Len(S(r)) THEN 0 ELSE At(S(r), i)
=============================================================================
