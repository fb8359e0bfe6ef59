------------------------------ MODULE VarSpec -------------------------------
(* C06: variants as typed values.  A value is a record [t, n, s, k, a]: its type; *)
(* for a number its decimal text n (so that 64-bit values are exact); for a       *)
(* string its code points s; for an array its elements a; for a map its keys k,    *)
(* ascending, and the values a that belong to them.                               *)
EXTENDS SeqOps, FiniteSets
CONSTANT Reg
VARIABLES regs
Num == INSTANCE NumSpec

V(t, n, s, k, a) == [t |-> t, n |-> n, s |-> s, k |-> k, a |-> a]
None       == V("None", << >>, << >>, << >>, << >>)
NumV(t, n) == V(t, n, << >>, << >>, << >>)
StrV(s)    == V("String", << >>, s, << >>, << >>)
ArrV(t, a) == V(t, << >>, << >>, << >>, a)
StrArrV(ss) == ArrV("StrArray", [i \in 1..Len(ss) |-> StrV(ss[i])])
MapV(k, a) == V("StrVarMap", << >>, << >>, k, a)
Default(t) == CASE t \in {"Integer", "Long", "LongLong"} -> NumV(t, <<48>>)
                [] t = "String" -> StrV(<< >>)
                [] t \in {"StrArray", "VarArray"} -> ArrV(t, << >>)
                [] t = "StrVarMap" -> MapV(<< >>, << >>)
                [] OTHER -> None
IntTypes == {"Integer", "Long", "LongLong"}

\* --- decimal texts ------------------------------------------------------------------
Neg(n) == n # << >> /\ n[1] = 45
Mag(n) == IF Neg(n) THEN Tail(n) ELSE n
Max31 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
Max31n == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Fits32(n) == LET m == Mag(n) IN Len(m) < 10 \/ (Len(m) = 10 /\ LexCmp(m, IF Neg(n) THEN Max31n ELSE Max31) <= 0)
RECURSIVE Dec(_)      \* decimal text of -k, for k <= 0 (so that the least number is no exception)
Dec(k) == IF k > -10 THEN <<48 - k>> ELSE LET q == -((-(k + 10)) \div 10) - 1 IN Dec(q) \o <<48 - (k - q * 10)>>
DecText(i) == IF i < 0 THEN <<45>> \o Dec(i) ELSE Dec(-i)

\* --- coercion -------------------------------------------------------------------------
Yes(v) == [ok |-> TRUE, v |-> v]
Coerced(v, t) ==
    IF v.t = t THEN Yes(v)
    ELSE CASE t \in IntTypes /\ v.t \in IntTypes -> IF t = "Integer" /\ ~Fits32(v.n) THEN [ok |-> FALSE, v |-> v] ELSE Yes(NumV(t, v.n))
           [] t \in IntTypes /\ v.t = "String" ->
                  LET p == Num!Parse(v.s, 0) IN IF p.err = 0 THEN Yes(NumV(t, DecText(p.val))) ELSE [ok |-> FALSE, v |-> v]
           [] t = "String" /\ v.t \in IntTypes -> Yes(StrV(v.n))
           [] OTHER -> [ok |-> FALSE, v |-> v]

\* --- actions --------------------------------------------------------------------------
Upd(r, v) == regs' = [regs EXCEPT ![r] = v]
Skip == UNCHANGED regs
Init == regs = [r \in Reg |-> None]
New(r, v)  == Upd(r, v)
Copy(r, s) == Upd(r, regs[s])
\* access as a type, which coerces the variant where it can
As(r, t, ok, ret) == LET c == Coerced(regs[r], t) IN ok = c.ok /\ (ok => ret = c.v) /\ Upd(r, c.v)
\* access to a const variant never coerces
AsConst(r, t, ok, ret) == ok = (regs[r].t = t) /\ (ok => ret = regs[r]) /\ Skip
SetNum(r, t, n, ok) == LET c == Coerced(regs[r], t) IN ok = c.ok /\ Upd(r, IF ok THEN NumV(t, n) ELSE c.v)
Pair(r, s, u) == Upd(r, ArrV("VarArray", <<regs[s], regs[u]>>))
ArrayOf(r, ss) == Upd(r, ArrV("VarArray", [i \in 1..Len(ss) |-> regs[ss[i]]]))
\* entries of a map, the first given for each key, in ascending order of key
RECURSIVE SortKeys(_)
SortKeys(ks) == IF ks = {} THEN << >>
                ELSE LET k == CHOOSE x \in ks : \A y \in ks : LexCmp(x, y) <= 0 IN <<k>> \o SortKeys(ks \ {k})
FirstOf(ks, k) == CHOOSE i \in 1..Len(ks) : ks[i] = k /\ \A j \in 1..(i - 1) : ks[j] # k
MapOf(r, ks, ss) == LET sk == SortKeys({ks[i] : i \in 1..Len(ks)})
                    IN  Upd(r, MapV(sk, [i \in 1..Len(sk) |-> regs[ss[FirstOf(ks, sk[i])]]]))
AppendTo(r, s) == regs[r].t = "VarArray" /\ Upd(r, [regs[r] EXCEPT !.a = Append(@, regs[s])])
ElemOf(r, s, i) == i \in 0..(Len(regs[s].a) - 1) /\ Upd(r, regs[s].a[i + 1])
PutIn(r, k, s) == /\ regs[r].t = "StrVarMap"
                  /\ LET m == regs[r]
                         old == {m.k[i] : i \in 1..Len(m.k)}
                         sk == SortKeys(old \cup {k})
                     IN  Upd(r, MapV(sk, [i \in 1..Len(sk) |-> IF sk[i] = k THEN regs[s] ELSE m.a[FirstOf(m.k, sk[i])]]))
=============================================================================
