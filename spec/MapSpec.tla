------------------------------ MODULE MapSpec -------------------------------
(* C04: maps as finite functions.  regs[r] is the function from keys to values  *)
(* that the live map r denotes; keys are sequences of integers (code points, or *)
(* a single number), ordered lexicographically.  One action per operation.      *)
EXTENDS SeqOps, FiniteSets
CONSTANT Reg
VARIABLES regs
M(r) == regs[r]
Empty == << >>                                  \* the function with empty domain
Upd(r, m) == regs' = [regs EXCEPT ![r] = m]
Skip == UNCHANGED regs
Init == regs = [r \in Reg |-> Empty]

With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Add(m, k, v) == IF k \in DOMAIN m THEN m ELSE With(m, k, v)
RECURSIVE AddAll(_, _)
AddAll(m, es) == IF es = << >> THEN m ELSE AddAll(Add(m, es[1][1], es[1][2]), Tail(es))

New(r, es)       == Upd(r, AddAll(Empty, es))       \* the first of several entries for a key
Copy(r, s)       == Upd(r, M(s))
Put(r, k, v)     == Upd(r, With(M(r), k, v))
Insert(r, k, v)  == Upd(r, Add(M(r), k, v))         \* does not replace
Remove(r, k)     == Upd(r, Without(M(r), k))
Clear(r)         == Upd(r, Empty)

Get(r, k, dflt)  == IF k \in DOMAIN M(r) THEN M(r)[k] ELSE dflt
Has(r, k)        == k \in DOMAIN M(r)
Size(r)          == Cardinality(DOMAIN M(r))
\* entries in ascending order of key
RECURSIVE Sorted(_)
Sorted(ks) == IF ks = {} THEN << >>
              ELSE LET k == CHOOSE x \in ks : \A y \in ks : LexCmp(x, y) <= 0
                   IN  <<k>> \o Sorted(ks \ {k})
Keys(r)    == Sorted(DOMAIN M(r))
Values(r)  == LET ks == Keys(r) IN [i \in 1..Len(ks) |-> M(r)[ks[i]]]
Entries(r) == LET ks == Keys(r) IN [i \in 1..Len(ks) |-> <<ks[i], M(r)[ks[i]]>>]
\* the catalogue of conditions on entries the drivers use
Cond(p, k, v) == CASE p = 0 -> TRUE [] p = 1 -> FALSE [] p = 2 -> v % 2 = 1 [] p = 3 -> Len(k) = 1 [] p = 4 -> v > 5 [] p = 5 -> k # << >> /\ k[1] < 98
Count(r, p) == Cardinality({k \in DOMAIN M(r) : Cond(p, k, M(r)[k])})
All(r, p) == Count(r, p) = Size(r)
Any(r, p) == Count(r, p) > 0
One(r, p) == Count(r, p) = 1
Select(r, s, p) == Upd(r, [k \in {x \in DOMAIN M(s) : Cond(p, x, M(s)[x])} |-> M(s)[k]])
\* map: the catalogue of entry functions; entries are put in ascending order of the source key
MapKey(f, k) == CASE f = 0 -> k [] f = 1 -> (IF k = << >> THEN k ELSE <<k[1]>>) [] f = 2 -> <<97>>
RECURSIVE MapAll(_, _, _, _)
MapAll(m, f, es, i) == IF i > Len(es) THEN m ELSE MapAll(With(m, MapKey(f, es[i][1]), es[i][2] + 1), f, es, i + 1)
MapTo(r, s, f) == Upd(r, MapAll(Empty, f, Entries(s), 1))
RECURSIVE Fold(_, _)
Fold(es, acc) == IF es = << >> THEN acc ELSE Fold(Tail(es), (acc * 3 + es[1][2] + Len(es[1][1])) % 10007)
\* map s is changed while the entries of r are being visited (at the one numbered at): those visited are those r had
Change(m, what, k, v, here) == CASE what = "put" -> With(m, k, v)
                                 [] what = "remove" -> Without(m, k)
                                 [] what = "same" -> With(m, here, v)
                                 [] what = "this" -> Without(m, here)
                                 [] what \in {"clear", "empty"} -> Empty
Visit(r, s, at, what, k, v, seen) ==
    /\ seen = Entries(r)
    /\ IF at \in 0..(Len(seen) - 1) THEN Upd(s, Change(M(s), what, k, v, seen[at + 1][1])) ELSE Skip
=============================================================================
