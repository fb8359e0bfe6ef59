------------------------------ MODULE ArrayCow ------------------------------
(* C03/C01/C05: the storage design of Array (and of StrVal, which is built on   *)
(* the same scheme): values are slices [body, offset, length] of shared bodies; *)
(* a body may be changed in place only by its single holder; the shortcuts      *)
(* (shortening a slice, extending a slice over an adjacent slice of the same    *)
(* body) change only the slice.  TLC checks that every storage-level step is a  *)
(* step of the abstract value specification (refinement) and that no body is    *)
(* written while shared.                                                        *)
EXTENDS SeqOps, FiniteSets, TLC

CONSTANTS Reg, Elem, Bodies, MaxLen, Null, Emit

VARIABLES data,     \* data[b]: contents of body b
          hist,     \* the operations so far (not part of the state: see VIEW)
          sl        \* sl[r] = [b |-> body or Null, off |-> offset, n |-> length]

vars == <<data, sl>>
view == vars

Holders(b) == {r \in Reg : sl[r].b = b}
Rc(b) == Cardinality(Holders(b))
Free == {b \in Bodies : Rc(b) = 0}
Fresh == CHOOSE b \in Free : TRUE           \* which one does not matter
EmptySlice == [b |-> Null, off |-> 0, n |-> 0]

Abs(r) == IF sl[r].b = Null THEN << >> ELSE Sub(data[sl[r].b], sl[r].off, sl[r].n)
AbsRegs == [r \in Reg |-> Abs(r)]

A == INSTANCE ArraySpec WITH regs <- AbsRegs

Init == /\ data = [b \in Bodies |-> << >>]
        /\ sl = [r \in Reg |-> EmptySlice]
        /\ hist = << >>

\* Unused bodies are normalised so that garbage does not multiply states
Norm(d, s) == [b \in Bodies |-> IF \E r \in Reg : s[r].b = b THEN d[b] ELSE << >>]
\* (the guard keeps bodies small)
Put(d, s) == /\ \A b \in Bodies : Len(d[b]) <= MaxLen
             /\ sl' = s /\ data' = Norm(d, s)

\* Give register r the new contents c, in place when it is the only holder of its body:
\* f maps (whole body contents, offset) to the new whole contents; g is what a private copy becomes.
Mutate(r, wholeNew, copyNew, n) ==
    LET b == sl[r].b IN
    IF b # Null /\ Rc(b) = 1
    THEN Put([data EXCEPT ![b] = wholeNew], [sl EXCEPT ![r].n = n])
    ELSE Free # {} /\ Put([data EXCEPT ![Fresh] = copyNew], [sl EXCEPT ![r] = [b |-> Fresh, off |-> 0, n |-> n]])

New(r, s) == Free # {} /\ Put([data EXCEPT ![Fresh] = s], [sl EXCEPT ![r] = [b |-> Fresh, off |-> 0, n |-> Len(s)]])
Copy(r, s) == Put(data, [sl EXCEPT ![r] = sl[s]])
SliceOf(r, s, at, n) ==
    LET m == sl[s].n
        k == IF n = -1 THEN m - at ELSE Min2(n, m - at)
    IN  Put(data, [sl EXCEPT ![r] = IF at >= m \/ n = 0 THEN EmptySlice
                                   ELSE [b |-> sl[s].b, off |-> sl[s].off + at, n |-> k]])
Body(r) == IF sl[r].b = Null THEN << >> ELSE data[sl[r].b]
InsertAt(r, pos, t) ==   \* contents t at slice position pos
    Mutate(r, InsertSeq(Body(r), sl[r].off + pos, t), InsertSeq(Abs(r), pos, t), sl[r].n + Len(t))
SetElem(r, i, e) == i < sl[r].n /\ Mutate(r, SetAt(Body(r), sl[r].off + i, e), SetAt(Abs(r), i, e), sl[r].n)
Insert(r, pos, s) ==
    IF sl[r].b # Null /\ sl[r].b = sl[s].b /\ pos = sl[r].n /\ sl[r].off + pos = sl[s].off
    THEN Put(data, [sl EXCEPT ![r].n = @ + sl[s].n])                        \* extend forwards
    ELSE IF sl[r].b # Null /\ sl[r].b = sl[s].b /\ pos = 0 /\ sl[s].off + sl[s].n = sl[r].off
    THEN Put(data, [sl EXCEPT ![r].n = @ + sl[s].n, ![r].off = @ - sl[s].n])  \* extend backwards
    ELSE InsertAt(r, pos, Abs(s))
Remove(r, at, n) ==
    IF at = sl[r].n \/ n = 0 THEN UNCHANGED vars
    ELSE IF at + n = sl[r].n THEN Put(data, [sl EXCEPT ![r].n = @ - n])
    ELSE IF at = 0 THEN Put(data, [sl EXCEPT ![r].n = @ - n, ![r].off = @ + n])
    ELSE Mutate(r, RemoveRange(Body(r), sl[r].off + at, n), RemoveRange(Abs(r), at, n), sl[r].n - n)
Clear(r) == Put(data, [sl EXCEPT ![r].n = 0])
Drop1(r) == Put(data, [sl EXCEPT ![r] = EmptySlice])       \* destroy the value

\* Every storage-level step is checked, as it is taken, against the abstract action it
\* implements, and recorded: hist is the behaviour so far (hidden from the state by VIEW), which
\* is printed, one line per transition of the state graph, to be replayed on the real code.
Did(op, act) == /\ Assert(act, "storage step is not the abstract value step")
                /\ hist' = Append(hist, op)
                /\ (Emit => PrintT(<<"SCRIPT", ToString(hist')>>))
Next == \E r \in Reg :
   \/ \E e, f \in Elem : New(r, <<e, f>>) /\ Did(<<"new", r, e, f>>, A!New(r, <<e, f>>))
   \/ \E e \in Elem : InsertAt(r, sl[r].n, <<e>>) /\ Did(<<"push", r, e>>, A!Push(r, e))
   \/ \E e \in Elem : InsertAt(r, 0, <<e>>) /\ Did(<<"unshift", r, e>>, A!Unshift(r, e))
   \/ \E i \in 0..(MaxLen - 1), e \in Elem : SetElem(r, i, e) /\ Did(<<"set", r, i, e>>, A!SetElem(r, i, e))
   \/ \E s \in Reg : Copy(r, s) /\ Did(<<"copy", r, s>>, A!Copy(r, s))
   \/ \E s \in Reg, at \in 0..MaxLen, n \in -1..MaxLen :
        SliceOf(r, s, at, n) /\ Did(<<"slice", r, s, at, n>>, A!SliceOf(r, s, at, n))
   \/ \E s \in Reg, at \in 0..MaxLen : at <= sl[r].n /\ Insert(r, at, s) /\ Did(<<"insert", r, at, s>>, A!Insert(r, at, s))
   \/ \E at \in 0..MaxLen, n \in 0..MaxLen :
        at + n <= sl[r].n /\ Remove(r, at, n) /\ Did(<<"remove", r, at, n>>, A!Remove(r, at, n))
   \/ Clear(r) /\ Did(<<"clear", r>>, A!Clear(r))
   \/ Drop1(r) /\ Did(<<"drop", r>>, A!Clear(r))

Spec == Init /\ [][Next]_<<vars, hist>>

WellFormed == \A r \in Reg : sl[r].b # Null => sl[r].off + sl[r].n <= Len(data[sl[r].b])
\* a body other values depend on is never written
NoSharedWrite == [][\A b \in Bodies : Rc(b) > 1 /\ Rc(b)' >= 1 => data'[b] = data[b]]_vars
\* every step is an abstract value step on at most one register
Isolation == [][\E r \in Reg : \A q \in Reg \ {r} : Abs(q)' = Abs(q)]_vars
=============================================================================
