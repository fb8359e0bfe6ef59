------------------------------- MODULE StrCow -------------------------------
(* C01, C02: the storage design of StrVal: slices [body, offset, length] of     *)
(* shared bodies, each with a private bookmark (a character number in the body  *)
(* with its byte number) that lookups leave behind and later lookups start      *)
(* from.  Elements are code points of different encoded widths.  TLC checks     *)
(* that each storage-level step is a step of the abstract value specification   *)
(* StrSpec, that no body is written while another value depends on it, that a   *)
(* private body never contains text which is not part of its value when it is   *)
(* written, and that every bookmark stays truthful.                             *)
EXTENDS SeqOps, Utf8, FiniteSets, TLC

CONSTANTS Reg, Elem, Bodies, MaxLen, Null, Emit

VARIABLES data, sl, mark, hist
vars == <<data, sl, mark>>
view == vars

Holders(b) == {r \in Reg : sl[r].b = b}
Rc(b) == Cardinality(Holders(b))
Free == {b \in Bodies : Rc(b) = 0}
Fresh == CHOOSE b \in Free : TRUE
EmptySlice == [b |-> Null, off |-> 0, n |-> 0]
NoMark == [c |-> 0, b |-> 0]
Body(r) == IF sl[r].b = Null THEN << >> ELSE data[sl[r].b]
Abs(r) == Sub(Body(r), sl[r].off, sl[r].n)
AbsRegs == [r \in Reg |-> Abs(r)]
A == INSTANCE StrSpec WITH regs <- AbsRegs

MarkAt(s, c) == [c |-> c, b |-> Utf8NumBytes(Take(s, c))]

Init == /\ data = [b \in Bodies |-> << >>]
        /\ sl = [r \in Reg |-> EmptySlice]
        /\ mark = [r \in Reg |-> NoMark]
        /\ hist = << >>

Norm(d, s) == [b \in Bodies |-> IF \E r \in Reg : s[r].b = b THEN d[b] ELSE << >>]
Put(d, s, m) == /\ \A b \in Bodies : Len(d[b]) <= MaxLen
                /\ sl' = s /\ data' = Norm(d, s) /\ mark' = m

\* Unshare: in place only if this value is the only holder and is all of the body
Whole(r) == sl[r].off = 0 /\ sl[r].n = Len(Body(r))
InPlace(r) == sl[r].b # Null /\ Rc(sl[r].b) = 1 /\ Whole(r)
\* the bookmark as copyBody carries it over to the private copy
MarkCopied(r) == LET m == mark[r] IN
    IF InPlace(r) THEN m
    ELSE IF m.c > sl[r].off
         THEN [c |-> m.c - sl[r].off, b |-> m.b - Utf8NumBytes(Take(Body(r), sl[r].off))]
         ELSE NoMark
\* after Unshare the value is the whole of its body: give it contents c and bookmark m
Write(r, c, m) ==
    LET b == IF InPlace(r) THEN sl[r].b ELSE Fresh
    IN  /\ (InPlace(r) \/ Free # {})
        /\ Put([data EXCEPT ![b] = c], [sl EXCEPT ![r] = [b |-> b, off |-> 0, n |-> Len(c)]], [mark EXCEPT ![r] = m])

New(r, s)  == /\ Free # {}
              /\ Put([data EXCEPT ![Fresh] = s], [sl EXCEPT ![r] = [b |-> Fresh, off |-> 0, n |-> Len(s)]], [mark EXCEPT ![r] = NoMark])
Drop1(r)   == Put(data, [sl EXCEPT ![r] = EmptySlice], [mark EXCEPT ![r] = NoMark])
\* assignment copies the bookmark, construction starts without one
Copy(r, s, asg) == Put(data, [sl EXCEPT ![r] = sl[s]], [mark EXCEPT ![r] = IF asg THEN mark[s] ELSE NoMark])
Substr(r, s, at, n) ==
    LET m == sl[s].n
        k == IF n = -1 THEN m - at ELSE Min2(n, m - at)
    IN  Put(data, [sl EXCEPT ![r] = IF at >= m \/ n = 0 THEN EmptySlice ELSE [b |-> sl[s].b, off |-> sl[s].off + at, n |-> k]],
                  [mark EXCEPT ![r] = NoMark])
\* Insert looks up the insertion point (which may leave a bookmark there), then discards a
\* bookmark beyond it
InsertText(r, pos, t) ==
    \E looked \in BOOLEAN :
       LET m0 == IF looked THEN MarkAt(Abs(r), pos) ELSE MarkCopied(r)
           m  == IF m0.c > pos THEN NoMark ELSE m0
       IN  Write(r, InsertSeq(Abs(r), pos, t), m)
Insert(r, pos, s) ==
    IF pos = sl[r].n /\ sl[r].b = sl[s].b /\ sl[r].b # Null /\ sl[r].off + pos = sl[s].off
    THEN Put(data, [sl EXCEPT ![r].n = @ + sl[s].n], mark)           \* extend over the adjacent slice
    ELSE InsertText(r, pos, Abs(s))
Case(r) == Write(r, A!Lower(Abs(r)), NoMark)
\* a lookup that leaves a bookmark
Look(r, i) == i <= sl[r].n /\ sl[r].b # Null /\ Put(data, sl, [mark EXCEPT ![r] = MarkAt(Body(r), sl[r].off + i)])

Did(op, act) == /\ Assert(act, <<"storage step is not the abstract value step", op>>)
                /\ hist' = Append(hist, op)
                /\ (Emit => PrintT(<<"SCRIPT", ToString(hist')>>))
Next == \E r \in Reg :
   \/ \E e, f \in Elem : New(r, <<e, f>>) /\ Did(<<"new", r, e, f>>, A!New(r, <<e, f>>))
   \/ Drop1(r) /\ Did(<<"drop", r>>, A!New(r, << >>))
   \/ \E s \in Reg, g \in BOOLEAN : Copy(r, s, g) /\ Did(<<"copy", r, s, g>>, A!Copy(r, s))
   \/ \E s \in Reg, at \in 0..MaxLen, n \in -1..MaxLen : Substr(r, s, at, n) /\ Did(<<"substr", r, s, at, n>>, A!Substr(r, s, at, n))
   \/ \E e \in Elem : InsertText(r, sl[r].n, <<e>>) /\ Did(<<"push", r, e>>, A!AppendChar(r, e))
   \/ \E s \in Reg, at \in 0..MaxLen : at <= sl[r].n /\ Insert(r, at, s) /\ Did(<<"insert", r, at, s>>, A!Insert(r, at, s))
   \/ Case(r) /\ Did(<<"case", r>>, A!ToLower(r))
   \/ \E i \in 0..MaxLen : Look(r, i) /\ Did(<<"look", r, i>>, UNCHANGED AbsRegs)

Spec == Init /\ [][Next]_<<vars, hist>>

WellFormed == \A r \in Reg : sl[r].b # Null => sl[r].off + sl[r].n <= Len(data[sl[r].b])
MarksTruthful == \A r \in Reg : /\ mark[r].c <= Len(Body(r))
                                /\ mark[r] = MarkAt(Body(r), mark[r].c)
NoSharedWrite == [][\A b \in Bodies : Rc(b) > 1 /\ Rc(b)' >= 1 => data'[b] = data[b]]_vars
Isolation == [][\E r \in Reg : \A q \in Reg \ {r} : Abs(q)' = Abs(q)]_vars
=============================================================================
