----------------------------- MODULE ArraySpec ------------------------------
(* C03.  Arrays as abstract values.  regs[r] is the sequence of elements the   *)
(* live array r denotes.  One action per API operation; results are action     *)
(* parameters.  Nothing here knows about bodies, slices or sharing: that is    *)
(* the point (value semantics); see ArrayCow for the storage-level design and  *)
(* its refinement of this module.                                              *)
EXTENDS SeqOps, FiniteSets

CONSTANTS Reg                 \* names of live arrays
VARIABLE regs

Upd(r, s) == regs' = [regs EXCEPT ![r] = s]
Skip == UNCHANGED regs
S(r) == regs[r]

Init == regs = [r \in Reg |-> << >>]

\* --- construction, copying, slicing -----------------------------------------
New(r, s)           == Upd(r, s)
Copy(r, s)          == Upd(r, S(s))
SliceOf(r, s, at, n) == Upd(r, Slice(S(s), at, n))
HeadOf(r, s, n)     == Upd(r, Slice(S(s), 0, n))
TailOf(r, s, n)     == n <= Len(S(s)) /\ Upd(r, Slice(S(s), Len(S(s)) - n, n))
ShorterOf(r, s, n)  == n <= Len(S(s)) /\ Upd(r, Slice(S(s), 0, Len(S(s)) - n))
DropOf(r, s, n)     == n <= Len(S(s)) /\ Upd(r, Drop(S(s), n))
Plus(r, s, t)       == Upd(r, S(s) \o S(t))
PlusElem(r, s, e)   == Upd(r, Append(S(s), e))

\* --- mutation -----------------------------------------------------------------
SetElem(r, i, e)    == i \in 0..(Len(S(r)) - 1) /\ Upd(r, SetAt(S(r), i, e))
Push(r, e)          == Upd(r, Append(S(r), e))
Unshift(r, e)       == Upd(r, <<e>> \o S(r))
Insert(r, at, s)    == at \in 0..Len(S(r)) /\ Upd(r, InsertSeq(S(r), at, S(s)))
AppendArr(r, s)     == Upd(r, S(r) \o S(s))
Shift(r, ret)       == S(r) # << >> /\ ret = Head(S(r)) /\ Upd(r, Tail(S(r)))
Pull(r, ret)        == S(r) # << >> /\ ret = At(S(r), Len(S(r)) - 1) /\ Upd(r, Take(S(r), Len(S(r)) - 1))
DeleteAt(r, i, ret) == i \in 0..(Len(S(r)) - 1) /\ ret = At(S(r), i) /\ Upd(r, RemoveRange(S(r), i, 1))
Remove(r, at, n)    == LET k == IF n = -1 THEN Len(S(r)) - at ELSE n
                       IN  at \in 0..Len(S(r)) /\ at + k <= Len(S(r)) /\ Upd(r, RemoveRange(S(r), at, k))
Clear(r)            == Upd(r, << >>)
Reverse(r)          == Upd(r, Rev(S(r)))
DeleteIf(r, P(_))   == Upd(r, Filter(S(r), LAMBDA e : ~P(e), << >>))

\* array s is changed while the elements of r are being visited (at the one numbered at): those visited are those r had
Change(v, what, e, w) == CASE what = "push" -> Append(v, e)
                           [] what = "unshift" -> <<e>> \o v
                           [] what \in {"clear", "empty"} -> << >>
                           [] what = "pull" -> (IF v = << >> THEN v ELSE Take(v, Len(v) - 1))
                           [] what = "set" -> (IF v = << >> THEN v ELSE SetAt(v, Len(v) - 1, e))
                           [] what = "reverse" -> Rev(v)
                           [] what = "append" -> v \o w
Visit(r, s, at, what, e, seen) ==
    /\ seen = S(r)
    /\ IF at \in 0..(Len(S(r)) - 1) THEN Upd(s, Change(S(s), what, e, S(r))) ELSE Skip

\* --- pure queries: results ------------------------------------------------------
CmpResult(r, s)     == LexCmp(S(r), S(s))
EqResult(r, s)      == S(r) = S(s)
FindResult(r, after, P(_))  == FirstIdx(S(r), after, P)
RFindResult(r, before, P(_)) == LastIdx(S(r), before, P)
AllResult(r, P(_))  == \A i \in 1..Len(S(r)) : P(S(r)[i])
AnyResult(r, P(_))  == \E i \in 1..Len(S(r)) : P(S(r)[i])
OneResult(r, P(_))  == Cardinality({i \in 1..Len(S(r)) : P(S(r)[i])}) = 1
SelectOf(r, s, P(_)) == Upd(r, Filter(S(s), P, << >>))
MapOf(r, s, F(_))   == Upd(r, [i \in 1..Len(S(s)) |-> F(S(s)[i])])
InjectResult(r, j, Op(_, _)) == FoldSeq(Op, j, S(r))
\* binary search in a sorted array: any index holding the element, -1 iff there is none
BSearchOK(r, e, ret) ==
    SortedSeq(S(r)) =>
      IF \E i \in 1..Len(S(r)) : S(r)[i] = e
      THEN ret \in 0..(Len(S(r)) - 1) /\ At(S(r), ret) = e
      ELSE ret = -1
=============================================================================
