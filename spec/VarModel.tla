------------------------------- MODULE VarModel -----------------------------
(* C06: the ownership design of Variant: a tagged cell holds a number or a       *)
(* counted reference to a body; assignment copies first (the parameter), then      *)
(* releases what was held; coercion releases a body before the number replaces it. *)
(* TLC checks every step against the abstract action of VarSpec, that reference    *)
(* counts are exact, and that nothing is released while held.                       *)
EXTENDS SeqOps, FiniteSets, TLC
CONSTANTS Reg, Bodies, Emit, MaxArr
VARIABLES cell, heap, hist
vars == <<cell, heap>>
view == vars
N7 == <<55>>
NBig == <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>
NMin == <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
SX == <<120>>
Nums == {N7, NBig}
Strs == {N7, NBig, SX}
Cell(t, n, b) == [t |-> t, n |-> n, b |-> b]
NoneC == Cell("None", << >>, 0)
Free0 == [rc |-> 0, s |-> << >>, a |-> << >>]
\* --- denotation ----------------------------------------------------------------------
VV(t, n, s, k, a) == [t |-> t, n |-> n, s |-> s, k |-> k, a |-> a]
RECURSIVE Den(_, _)
Den(h, c) == CASE c.t = "None" -> VV("None", << >>, << >>, << >>, << >>)
               [] c.t = "String" -> VV(c.t, << >>, h[c.b].s, << >>, << >>)
               [] c.t = "VarArray" -> VV(c.t, << >>, << >>, << >>, [i \in 1..Len(h[c.b].a) |-> Den(h, h[c.b].a[i])])
               [] OTHER -> VV(c.t, c.n, << >>, << >>, << >>)
AbsRegs == [r \in Reg |-> Den(heap, cell[r])]
A == INSTANCE VarSpec WITH regs <- AbsRegs
\* --- counting -------------------------------------------------------------------------
AddRef(h, c) == IF c.b = 0 THEN h ELSE [h EXCEPT ![c.b].rc = @ + 1]
RECURSIVE Release(_, _), ReleaseAll(_, _)
Release(h, c) == IF c.b = 0 THEN h
                 ELSE IF h[c.b].rc > 1 THEN [h EXCEPT ![c.b].rc = @ - 1]
                 ELSE ReleaseAll([h EXCEPT ![c.b] = Free0], h[c.b].a)
ReleaseAll(h, cs) == IF cs = << >> THEN h ELSE ReleaseAll(Release(h, Head(cs)), Tail(cs))
RECURSIVE AddAll(_, _)
AddAll(h, cs) == IF cs = << >> THEN h ELSE AddAll(AddRef(h, Head(cs)), Tail(cs))
FreeOf(h) == {b \in Bodies : h[b].rc = 0}
Alloc(h) == CHOOSE b \in FreeOf(h) : \A x \in FreeOf(h) : b <= x
\* the by-value parameter takes a share, the target lets go, takes its own, the parameter goes
Assign(h, old, c) == Release(AddRef(Release(AddRef(h, c), old), c), c)
Put(r, h, c) == cell' = [cell EXCEPT ![r] = c] /\ heap' = h
PutNew(r, h, t, s, a) == \* a temporary variant owning a fresh body is assigned to r and destroyed
    LET b == Alloc(h)
        h1 == [AddAll(h, a) EXCEPT ![b] = [rc |-> 1, s |-> s, a |-> a]]
        c == Cell(t, << >>, b)
    IN  Put(r, Release(Assign(h1, cell[r], c), c), c)
Did(op, act) == /\ Assert(act, <<"storage step is not the abstract step", op>>)
                /\ hist' = Append(hist, op)
                /\ (Emit => PrintT(<<"SCRIPT", ToString(hist')>>))
Init == cell = [r \in Reg |-> NoneC] /\ heap = [b \in Bodies |-> Free0] /\ hist = << >>
Held(r) == cell[r].b # 0
CoerceNum(r, t) == \* a number, or a string that is one
    LET d == A!Coerced(AbsRegs[r], t) IN
    IF ~d.ok THEN Put(r, heap, cell[r]) ELSE Put(r, Release(heap, cell[r]), Cell(t, d.v.n, 0))
Next == \E r \in Reg :
  \/ \E n \in Nums, t \in {"Integer", "Long", "LongLong"} :
       (t = "Integer" => n = N7) /\ Put(r, Release(heap, cell[r]), Cell(t, n, 0)) /\ Did(<<"num", r, t, n>>, A!New(r, VV(t, n, << >>, << >>, << >>)))
  \/ \E s \in Strs : FreeOf(heap) # {} /\ PutNew(r, heap, "String", s, << >>) /\ Did(<<"str", r, s>>, A!New(r, VV("String", << >>, s, << >>, << >>)))
  \/ \E s \in Reg : Put(r, Assign(heap, cell[r], cell[s]), cell[s]) /\ Did(<<"copy", r, s>>, A!Copy(r, s))
  \/ \E s, u \in Reg : FreeOf(heap) # {} /\ PutNew(r, heap, "VarArray", << >>, <<cell[s], cell[u]>>) /\ Did(<<"pair", r, s, u>>, A!Pair(r, s, u))
  \/ \E s \in Reg : /\ cell[r].t = "VarArray" /\ FreeOf(heap) # {} /\ Len(heap[cell[r].b].a) < MaxArr
                    /\ PutNew(r, heap, "VarArray", << >>, Append(heap[cell[r].b].a, cell[s])) /\ Did(<<"append", r, s>>, A!AppendTo(r, s))
  \/ \E s \in Reg : /\ cell[s].t = "VarArray"
                    /\ \E i \in 1..Len(heap[cell[s].b].a) : LET c == heap[cell[s].b].a[i] IN
                         Put(r, Assign(heap, cell[r], c), c) /\ Did(<<"elem", r, s, i - 1>>, A!ElemOf(r, s, i - 1))
  \/ \E t \in {"Integer", "Long", "LongLong"} : CoerceNum(r, t)
       /\ Did(<<"as", r, t>>, LET c == A!Coerced(AbsRegs[r], t) IN A!As(r, t, c.ok, c.v))
  \/ LET c == A!Coerced(AbsRegs[r], "String") IN
       /\ IF cell[r].t = "String" \/ ~c.ok THEN Put(r, heap, cell[r]) ELSE FreeOf(heap) # {} /\ PutNew(r, heap, "String", c.v.s, << >>)
       /\ Did(<<"as", r, "String">>, A!As(r, "String", c.ok, c.v))
Spec == Init /\ [][Next]_<<vars, hist>>
RECURSIVE CountIn(_, _)
CountIn(cs, b) == IF cs = << >> THEN 0 ELSE (IF Head(cs).b = b THEN 1 ELSE 0) + CountIn(Tail(cs), b)
RECURSIVE SumB(_, _)
SumB(bs, b) == IF bs = {} THEN 0 ELSE LET x == CHOOSE y \in bs : TRUE IN CountIn(heap[x].a, b) + SumB(bs \ {x}, b)
RcExact == \A b \in Bodies : heap[b].rc = Cardinality({r \in Reg : cell[r].b = b}) + SumB(Bodies, b)
TagsRight == \A r \in Reg : (cell[r].t \in {"String", "VarArray"}) <=> Held(r)
=============================================================================
