------------------------------- MODULE SourceSpec -------------------------------
(* C23: parsing sources.  A source over a text s (bytes, a NUL after) is what it has
   consumed: the units (characters, or bytes where read by byte) from where it started.
   Its byte offset, line and column follow from them by counting. *)
EXTENDS CodecSpec, FiniteSets, SequencesExt
Null == [null |-> TRUE, org |-> 0, pos |-> 0, units |-> <<>>]
At0(o) == [null |-> FALSE, org |-> o, pos |-> o, units |-> <<>>]
NL == <<0, 10>>
Eof(s, x) == x.null \/ x.pos >= Len(s)
\* sign extension does not matter to the counting
ReadByte(s, x) == IF Eof(s, x) THEN x ELSE [x EXCEPT !.pos = @ + 1, !.units = Append(@, <<0, s[x.pos + 1]>>)]
ReadChar(s, x) == IF Eof(s, x) THEN x ELSE LET t == Step8(s, x.pos + 1) IN [x EXCEPT !.pos = @ + t.n, !.units = Append(@, t.c)]
ByteCount(x) == x.pos - x.org
LineCount(x) == 1 + Cardinality({i \in 1..Len(x.units) : x.units[i] = NL})
LastNL(x) == FoldLeftDomain(LAMBDA last, i : IF x.units[i] = NL THEN i ELSE last, 0, x.units)
\* n reads of characters which are all ASCII
Ascii(s, x, n) == x.pos + n <= Len(s) /\ \A i \in x.pos + 1..x.pos + n : s[i] < 128
ReadMany(s, x, n) == [x EXCEPT !.pos = @ + n, !.units = @ \o [i \in 1..n |-> <<0, s[x.pos + i]>>]]
Column(x) == Len(x.units) - LastNL(x) + 1
Bol(x) == Column(x) = 1
=============================================================================
