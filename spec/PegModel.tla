------------------------------- MODULE PegModel -------------------------------
(* The matcher interprets the pattern as it goes: it keeps a place in the pattern and a
   place in the text, runs an atom again by going back in the pattern, and gets past an
   atom that failed by skipping it.  This model does so over every pattern of Letters up
   to MaxPat and every text up to MaxText, and must agree with the trees of PegSpec: in
   outcome, in where it ends, and in the captures that are left.
   The switches are what it takes to be right. *)
EXTENDS PegSpec, TLC
CONSTANTS MaxPat, MaxText, SkipOperand, SkipAlternates, RestorePattern, KeepParen, RollBack, Record,
          Letters, Chars          \* of patterns, of texts
VARIABLES p, s
vars == <<p, s>>
----------------------------------------------------------------------------
RECURSIVE Skip(_, _), SkipGroup(_, _), SkipAlt(_, _), SkipAlts(_, _)
SkipAlt(q, i) == IF PC(q, i) \in {124, 41, 0} THEN i ELSE SkipAlt(q, Skip(q, i))      \* the rest of one alternate
SkipAlts(q, i) == LET j == SkipAlt(q, i) IN IF PC(q, j) = 124 THEN SkipAlts(q, j + 1) ELSE j
SkipGroup(q, i) == IF PC(q, i) \in {41, 0} THEN i ELSE SkipGroup(q, Skip(q, i))
Skip(q, i) ==
  LET c == PC(q, i)
      j == CASE c = 92 -> LitChar(q, i).n
             [] c = 91 -> Class(q, IF PC(q, i + 1) = 94 THEN i + 2 ELSE i + 1, <<>>).n
             [] c = 40 -> LET g == SkipGroup(q, i + 1) IN IF PC(q, g) = 41 THEN g + 1 ELSE g
             [] c = 124 -> IF SkipAlternates THEN SkipAlts(q, i + 1) ELSE SkipAlt(q, i + 1)
             [] c \in {38, 33} -> Skip(q, i + 1)
             [] c \in {63, 42, 43} /\ SkipOperand -> Skip(q, i + 1)
             [] c \in {0, 41} -> i
             [] OTHER -> i + 1
  IN Label(q, j).n
----------------------------------------------------------------------------
\* a state: i in the pattern, pos in the text, caps so far.  A result says ok, too
AtEnd(q, st) == PC(q, st.i) \in {0, 41}
Yes(st) == [ok |-> TRUE, st |-> st]
Rolled(st, n) == IF RollBack THEN [st EXCEPT !.caps = SubSeq(@, 1, n)] ELSE st
RECURSIVE XAtom(_, _, _), XSeq(_, _, _), XRep(_, _, _, _, _), XAlt(_, _, _, _), XAltAtoms(_, _, _)
XSeq(q, st, cx) ==                 \* st where it stopped, when it fails
  IF AtEnd(q, st) THEN Yes(st)
  ELSE LET r == XAtom(q, st, cx) IN IF r.ok THEN XSeq(q, r.st, cx) ELSE r
XRep(q, from, n, st, cx) ==        \* n: how many so far.  st where we are; from the operand
  LET r == XAtom(q, [st EXCEPT !.i = from], cx) IN
  IF ~r.ok THEN Yes([r.st EXCEPT !.i = Skip(q, r.st.i)])
  ELSE IF r.st.pos = st.pos \/ n = 1 THEN Yes(r.st)
  ELSE XRep(q, from, 0, r.st, cx)
XAltAtoms(q, st, cx) ==
  LET r == XAtom(q, st, cx) IN
  IF ~r.ok THEN r ELSE IF AtEnd(q, r.st) \/ PC(q, r.st.i) = 124 THEN r ELSE XAltAtoms(q, r.st, cx)
XAlt(q, st, i, cx) ==              \* i is at a |
  LET r == XAltAtoms(q, [st EXCEPT !.i = i + 1], cx) next == SkipAlt(q, i + 1) IN
  IF r.ok THEN Yes([r.st EXCEPT !.i = IF PC(q, @) = 124 THEN SkipAlts(q, @ + 1) ELSE @])
  ELSE IF PC(q, next) = 124 THEN XAlt(q, Rolled([r.st EXCEPT !.i = st.i, !.pos = st.pos], Len(st.caps)), next, cx)
  ELSE [ok |-> FALSE, st |-> IF RestorePattern THEN st ELSE [st EXCEPT !.i = i + 1]]
XAtom(q, st, cx) ==
  LET c == PC(q, st.i)
      on == [st EXCEPT !.i = @ + 1]
      n0 == Len(st.caps)
      r == CASE c = 0 -> Yes(st)
             [] c = 41 -> Yes(IF KeepParen THEN st ELSE on)
             [] c = 40 -> LET x == XSeq(q, on, cx) IN IF x.ok THEN Yes(IF PC(q, x.st.i) # 0 THEN [x.st EXCEPT !.i = @ + 1] ELSE x.st) ELSE x
             [] c = 124 -> XAlt(q, st, st.i, cx)
             [] c \in {38, 33} -> LET x == XAtom(q, on, [cx EXCEPT !.look = TRUE]) IN
                                  IF x.ok # (c = 33) THEN Yes([st EXCEPT !.i = Skip(q, st.i)]) ELSE [ok |-> FALSE, st |-> st]
             [] c = 63 -> XRep(q, st.i + 1, 1, on, cx)
             [] c = 42 -> XRep(q, st.i + 1, 0, on, [cx EXCEPT !.rep = TRUE])
             [] c = 43 -> LET x == XAtom(q, on, [cx EXCEPT !.rep = TRUE]) IN IF x.ok THEN XRep(q, st.i + 1, 0, x.st, [cx EXCEPT !.rep = TRUE]) ELSE x
             [] OTHER -> LET b == Bare(q, st.i, FALSE) t == Terminal([k |-> b.k, a |-> b.a, b |-> b.b, at |-> 0, to |-> 0], st.pos, cx) IN
                         [ok |-> t.ok, st |-> [st EXCEPT !.i = b.n, !.pos = t.pos]]
      failed == Rolled([st EXCEPT !.i = IF c = 124 THEN r.st.i ELSE st.i, !.caps = r.st.caps], n0)
      l == Label(q, r.st.i)
  IN IF ~r.ok THEN [ok |-> FALSE, st |-> failed]
     ELSE Yes([r.st EXCEPT !.i = l.n,
               !.caps = IF l.lab.is /\ ~cx.look THEN Append(@, [name |-> l.lab.name, from |-> st.pos, to |-> r.st.pos, rep |-> cx.rep]) ELSE @])
XHere(q, pos, cx) == LET r == XSeq(q, [i |-> 1, pos |-> pos, caps |-> <<>>], cx) IN [r EXCEPT !.ok = @ /\ r.st.i > Len(q)]
----------------------------------------------------------------------------
\* Patterns whose operators have operands, classes and groups ends, escapes a character, alternates but the last something in them
Empty(n) == n.to = n.at
RECURSIVE Formed(_), FormedSeq(_)
Formed(n) == (n.lab.is => n.lab.name # <<>> /\ n.k # "look") /\
             CASE n.k = "rep" -> ~Empty(n.b) /\ Formed(n.b) [] n.k = "look" -> ~Empty(n.b) /\ Formed(n.b)
               [] n.k = "grp" -> FormedSeq(n.a) /\ p[n.to - 1] = 41
               [] n.k = "alt" -> (\A i \in 1..Len(n.a) : FormedSeq(n.a[i]) /\ (i < Len(n.a) => n.a[i] # <<>>)) /\ ~(Len(n.a[1]) > 0 /\ n.a[1][1].k = "alt")
               [] n.k = "cls" -> p[n.to - 1] = 93
               [] n.k = "lit" -> p[n.at] # 58
               [] OTHER -> TRUE
FormedSeq(seq) == \A i \in 1..Len(seq) : Formed(seq[i])
WellFormed == LET t == Read(p, FALSE) IN t.ok /\ FormedSeq(t.seq)
\* the end of the last group is not just any )
Init == /\ p = <<>> /\ s \in UNION {[1..n -> Chars] : n \in 0..MaxText}
Next == Len(p) < MaxPat /\ (\E c \in Letters : p' = Append(p, c)) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Same(cx, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].name = b[i].name /\ a[i].from = b[i].from /\ a[i].to = b[i].to /\ a[i].rep = b[i].rep
Agree == WellFormed => LET cx == Plain(s, TRUE) t == Read(p, FALSE) IN
         \A pos \in 0..Len(s) : LET d == Here(t.seq, s, TRUE, pos) x == XHere(p, pos, cx) IN
            d.ok = x.ok /\ (d.ok => d.pos = x.st.pos /\ Same(cx, d.caps, x.st.caps))
Script == Record /\ WellFormed /\ Len(p) >= MaxPat - 1 => PrintT(<<"SCRIPT", ToString(p)>>)
=============================================================================
