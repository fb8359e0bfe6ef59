------------------------------- MODULE SeqOps -------------------------------
(* Pure sequence operators shared by the value-type specifications.            *)
(* All indexes are 0-based, as in the C++ API; the sequences are TLA+ ones.    *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

At(s, i) == s[i + 1]                          \* 0 <= i < Len(s)
Sub(s, at, n) == SubSeq(s, at + 1, at + n)    \* n elements from index at
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
InsertSeq(s, at, t) == Take(s, at) \o t \o Drop(s, at)
RemoveRange(s, at, n) == Take(s, at) \o Drop(s, at + n)
SetAt(s, i, e) == [s EXCEPT ![i + 1] = e]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* slice(at, len): len = -1 means "to the end"; clamped at the end; empty when out of range
Slice(s, at, len) ==
    IF at < 0 \/ at >= Len(s) \/ len = 0 THEN << >>
    ELSE Sub(s, at, IF len = -1 THEN Len(s) - at ELSE Min2(len, Len(s) - at))

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN << >> ELSE s \o Repeat(s, n - 1)

\* The first index > after satisfying P, or -1
FirstIdx(s, after, P(_)) ==
    LET c == {i \in (after + 1)..(Len(s) - 1) : i >= 0 /\ P(At(s, i))}
    IN  IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i <= j
\* The last index < before (before = -1: Len(s)) satisfying P, or -1
LastIdx(s, before, P(_)) ==
    LET c == {i \in 0..((IF before < 0 THEN Len(s) ELSE before) - 1) : P(At(s, i))}
    IN  IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i >= j

\* Occurrence of t at index i of s
OccursAt(s, t, i) == i >= 0 /\ i + Len(t) <= Len(s) /\ Sub(s, i, Len(t)) = t

RECURSIVE Filter(_, _, _)
Filter(s, P(_), acc) ==
    IF s = << >> THEN acc
    ELSE Filter(Tail(s), P, IF P(Head(s)) THEN Append(acc, Head(s)) ELSE acc)

RECURSIVE LexCmp(_, _)          \* -1, 0, 1: lexicographic comparison of integer sequences
LexCmp(s, t) ==
    IF s = << >> THEN (IF t = << >> THEN 0 ELSE -1)
    ELSE IF t = << >> THEN 1
    ELSE IF Head(s) < Head(t) THEN -1
    ELSE IF Head(s) > Head(t) THEN 1
    ELSE LexCmp(Tail(s), Tail(t))

RECURSIVE FoldSeq(_, _, _)      \* FoldSeq(Op, acc, s)
FoldSeq(Op(_, _), acc, s) == IF s = << >> THEN acc ELSE FoldSeq(Op, Op(acc, Head(s)), Tail(s))

SortedSeq(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
=============================================================================
