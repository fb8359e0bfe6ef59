------------------------------- MODULE PegSpec -------------------------------
(* C12-C15: Pegular expressions and Peg grammars, by the usual semantics of parsing
   expressions: a pattern (bytes) is read as a tree, and the tree is a function from a
   text and a place in it to failure or a later place, with what was captured.

   Ordered choice, repetition and lookahead are possessive: once decided, never revisited.
   A text s is a sequence of bytes with a NUL after; wide says whether characters are
   UTF-8 sequences or bytes. *)
EXTENDS CodecSpec, FiniteSets, TLC
----------------------------------------------------------------------------
(* Characters as numbers; those which are ill-formed bytes are negative *)
Num(c) == IF c[1] >= 32768 THEN (0 - 1) - c[2] ELSE c[1] * 65536 + c[2]
CharAt(s, wide, pos) == IF wide THEN LET t == Step8(s, pos + 1) IN [c |-> Num(t.c), n |-> t.n] ELSE [c |-> s[pos + 1], n |-> 1]
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alpha(c) == Upper(c) \/ Lower(c)
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Props == {97, 100, 104, 76, 85, 115, 119}       \* a d h L U s w
CS == INSTANCE CharSpec
\* of a byte or an ASCII character; of others, as the character data have it
Prop7(p, c) == CASE p = 97 -> Alpha(c) [] p = 100 -> Digit(c) [] p = 104 -> Hex(c) [] p = 76 -> Lower(c) [] p = 85 -> Upper(c)
                 [] p = 115 -> c = 32 \/ c \in 9..13 [] p = 119 -> Alpha(c) \/ Digit(c) [] OTHER -> FALSE
Prop(p, c, wide) == IF ~wide \/ c < 128 THEN Prop7(p, c) /\ (wide => ~(p = 115 /\ c \in {11, 12}))   \* VT and FF are not white to UCS4IsWhite
                    ELSE CASE p = 97 -> CS!Alphabetic(c) [] p \in {100, 104} -> CS!Digit(c) >= 0 [] p = 76 -> CS!Upper(c) # c [] p = 85 -> CS!Lower(c) # c
                           [] p = 115 -> CS!White(c) [] p = 119 -> CS!Alphabetic(c) \/ CS!Digit(c) >= 0 [] OTHER -> FALSE
NameChar(c) == Alpha(c) \/ Digit(c) \/ c = 95
----------------------------------------------------------------------------
(* Reading a pattern: every operator gives a node and the index after it.
   Node: [k kind, a, b, lab, at, to]: the atom's bytes are at..to-1 (without its label).
     lit a=char | any | bol | eol | prop a=letter | cls a=negated b=ranges and properties
     grp a=sequence | rep a=operator b=node | alt a=sequences | look a=negated b=node | call a=name *)
PC(p, i) == IF i <= Len(p) THEN p[i] ELSE 0
RECURSIVE HexRun(_, _, _, _)
HexRun(p, i, most, v) == IF most > 0 /\ Hex(PC(p, i)) THEN HexRun(p, i + 1, most - 1, v * 16 + HexVal(p[i])) ELSE [c |-> v, n |-> i]
RECURSIVE OctRun(_, _, _, _)
OctRun(p, i, most, v) == IF most > 0 /\ PC(p, i) \in 48..55 THEN OctRun(p, i + 1, most - 1, v * 8 + (p[i] - 48)) ELSE [c |-> v, n |-> i]
\* after a backslash
Escape(p, i) ==
  LET c == PC(p, i) IN
  CASE c \in 48..55 -> OctRun(p, i, 3, 0)
    [] c \in {117, 120} -> LET br == PC(p, i + 1) = 123 r == HexRun(p, IF br THEN i + 2 ELSE i + 1, IF c = 120 THEN 2 ELSE IF br THEN 8 ELSE 4, 0)
                           IN [c |-> r.c, n |-> IF br /\ PC(p, r.n) = 125 THEN r.n + 1 ELSE r.n]
    [] OTHER -> [c |-> CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 98 -> 8 [] c = 101 -> 27 [] c = 102 -> 12 [] OTHER -> c, n |-> i + 1]
LitChar(p, i) == IF PC(p, i) = 92 THEN Escape(p, i + 1) ELSE [c |-> PC(p, i), n |-> i + 1]
RECURSIVE Class(_, _, _)
Class(p, i, acc) ==
  IF i > Len(p) THEN [b |-> acc, n |-> i]
  ELSE IF p[i] = 93 THEN [b |-> acc, n |-> i + 1]
  ELSE IF p[i] = 92 /\ PC(p, i + 1) \in Props THEN Class(p, i + 2, Append(acc, <<p[i + 1]>>))
  ELSE LET x == LitChar(p, i) IN
       IF PC(p, x.n) = 45 THEN LET y == LitChar(p, x.n + 1) IN Class(p, y.n, Append(acc, <<x.c, y.c>>))
       ELSE Class(p, x.n, Append(acc, <<x.c, x.c>>))
RECURSIVE Name(_, _)
Name(p, i) == IF NameChar(PC(p, i)) THEN Name(p, i + 1) ELSE i
NoLab == [is |-> FALSE, name |-> <<>>]
Label(p, i) == IF PC(p, i) # 58 THEN [lab |-> NoLab, n |-> i]
               ELSE LET j == Name(p, i + 1) IN [lab |-> [is |-> TRUE, name |-> SubSeq(p, i + 1, j - 1)], n |-> IF PC(p, j) = 58 THEN j + 1 ELSE j]
RECURSIVE To(_, _, _)
To(p, i, c) == IF i > Len(p) \/ p[i] = c THEN i ELSE To(p, i + 1, c)
RECURSIVE Atom(_, _, _), SeqOf(_, _, _, _), Alts(_, _, _)
\* peg: rules may be called
Bare(p, i, peg) ==
  LET c == p[i] N(k, a, b, n) == [k |-> k, a |-> a, b |-> b, n |-> n] IN
  CASE c = 94 -> N("bol", 0, 0, i + 1)
    [] c = 36 -> N("eol", 0, 0, i + 1)
    [] c = 46 -> N("any", 0, 0, i + 1)
    [] c \in {63, 42, 43} -> LET x == Atom(p, i + 1, peg) IN N("rep", c, x.node, x.n)
    [] c \in {38, 33} -> LET x == Atom(p, i + 1, peg) IN N("look", c = 33, x.node, x.n)
    [] c = 40 -> LET x == SeqOf(p, i + 1, peg, FALSE) IN N("grp", x.seq, 0, IF PC(p, x.n) = 41 THEN x.n + 1 ELSE x.n)
    [] c = 124 -> LET x == Alts(p, i, peg) IN N("alt", x.seqs, 0, x.n)
    [] c = 92 -> IF PC(p, i + 1) \in Props THEN N("prop", p[i + 1], 0, i + 2) ELSE LET x == Escape(p, i + 1) IN N("lit", x.c, 0, x.n)
    [] c = 91 -> LET neg == PC(p, i + 1) = 94 x == Class(p, IF neg THEN i + 2 ELSE i + 1, <<>>) IN N("cls", neg, x.b, x.n)
    [] peg /\ c = 60 -> LET j == To(p, i, 62) IN N("call", SubSeq(p, i + 1, j - 1), 0, j + 1)
    [] OTHER -> N("lit", c, 0, i + 1)
\* a repetition or lookahead with nothing after it has nothing to repeat
Atom(p, i, peg) ==
  IF i > Len(p) \/ PC(p, i) = 41 THEN [node |-> [k |-> "grp", a |-> <<>>, b |-> 0, lab |-> NoLab, at |-> i, to |-> i], n |-> i]
  ELSE LET x == Bare(p, i, peg) l == Label(p, x.n) IN
       [node |-> [k |-> x.k, a |-> x.a, b |-> x.b, lab |-> l.lab, at |-> i, to |-> x.n], n |-> l.n]
SeqOf(p, i, peg, inAlt) ==
  IF i > Len(p) \/ p[i] = 41 \/ (inAlt /\ p[i] = 124) THEN [seq |-> <<>>, n |-> i]
  ELSE LET x == Atom(p, i, peg) r == SeqOf(p, x.n, peg, inAlt) IN [seq |-> <<x.node>> \o r.seq, n |-> r.n]
Alts(p, i, peg) ==
  IF PC(p, i) # 124 THEN [seqs |-> <<>>, n |-> i]
  ELSE LET x == SeqOf(p, i + 1, peg, TRUE) r == Alts(p, x.n, peg) IN [seqs |-> <<x.seq>> \o r.seqs, n |-> r.n]
\* the whole pattern; unbalanced ) is not a pattern
Read(p, peg) == LET x == SeqOf(p, 1, peg, FALSE) IN [seq |-> x.seq, ok |-> x.n > Len(p)]
----------------------------------------------------------------------------
(* Matching.  A context says where we are:
     s, wide, text | rules: name -> [p, seq, caps] | look: in a lookahead | rep: in a repetition
     act: the active rules <<name, where>>, outermost first
   A result: ok, pos, caps: the captures, in order, each [name, from, to, rep, val]
     fails: the failures of terminals, in order, each [pos, rule, at, to, path], but in lookaheads *)
InClass(c, neg, set, wide) == LET in == \E i \in 1..Len(set) : IF Len(set[i]) = 1 THEN Prop(set[i][1], c, wide) ELSE c >= set[i][1] /\ c <= set[i][2]
                        IN IF neg THEN ~in ELSE in
Bol(cx, pos) == pos = 0 \/ LET RECURSIVE Ends(_)
                               Ends(q) == IF q >= pos THEN FALSE ELSE LET t == CharAt(cx.s, cx.wide, q) IN IF q + t.n >= pos THEN t.c = 10 ELSE Ends(q + t.n)
                           IN Ends(0)
Good(pos, caps, fails) == [ok |-> TRUE, pos |-> pos, caps |-> caps, fails |-> fails]
Bad(fails) == [ok |-> FALSE, pos |-> 0, caps |-> <<>>, fails |-> fails]
\* a map of captures as a rule delivers it: a value captured twice, or under repetition, is a list
RECURSIVE Ast(_, _, _)
Ast(caps, i, m) ==
  IF i > Len(caps) THEN m
  ELSE LET c == caps[i] IN
       Ast(caps, i + 1,
           (c.name :> (IF c.name \in DOMAIN m THEN (IF m[c.name][1] = "a" THEN <<"a", Append(m[c.name][2], c.val)>> ELSE <<"a", <<m[c.name], c.val>>>>)
                       ELSE IF c.rep THEN <<"a", <<c.val>>>> ELSE c.val)) @@ m)
Text(cx, from, to) == <<"s", SubSeq(cx.s, from + 1, to)>>
Value(cx, caps, from, to) == IF caps = <<>> THEN Text(cx, from, to) ELSE <<"m", Ast(caps, 1, <<>>)>>
Rule(cx) == cx.act[Len(cx.act)][1]
Path(cx) == [i \in 1..Len(cx.act) |-> cx.act[i][1]]
\* what a context makes of a capture: an Ast has no use for empty text
Keep(cx, c) == IF cx.look \/ (cx.ast /\ c.val = <<"s", <<>>>>) THEN <<>> ELSE <<c>>
RECURSIVE M(_, _, _), Items(_, _, _, _, _, _), Rep(_, _, _, _, _), Choice(_, _, _, _, _)
Terminal(node, pos, cx) ==
  LET eof == pos >= Len(cx.s)
      t == CharAt(cx.s, cx.wide, pos)
      hit == CASE node.k = "bol" -> Bol(cx, pos)
               [] node.k = "eol" -> eof \/ t.c = 10
               [] node.k = "any" -> ~eof
               [] node.k = "lit" -> ~eof /\ t.c = node.a
               [] node.k = "prop" -> ~eof /\ Prop(node.a, t.c, cx.wide)
               [] OTHER -> ~eof /\ InClass(t.c, node.a, node.b, cx.wide)
      shown == ~cx.look /\ cx.rules # <<>>
  IN IF hit THEN Good(IF node.k \in {"bol", "eol"} THEN pos ELSE pos + t.n, <<>>, <<>>)
     ELSE Bad(IF shown THEN <<[pos |-> pos, rule |-> Rule(cx), at |-> node.at, to |-> node.to, path |-> Path(cx)]>> ELSE <<>>)
\* a rule already begun at this place would never end
Call(node, pos, cx) ==
  LET name == node.a
      again == \E i \in 1..Len(cx.act) : cx.act[i] = <<name, pos>>
  IN IF name \notin DOMAIN cx.rules \/ again THEN Bad(<<>>)
     ELSE LET sub == [cx EXCEPT !.act = Append(@, <<name, pos>>), !.rep = FALSE]
              r == Items(cx.rules[name].seq, 1, pos, sub, <<>>, <<>>)
              as == IF node.lab.is THEN node.lab.name ELSE name
          IN IF ~r.ok THEN r
             ELSE Good(r.pos, IF as \in cx.rules[Rule(cx)].caps
                              THEN Keep(cx, [name |-> as, from |-> pos, to |-> r.pos, rep |-> cx.rep, val |-> Value(cx, r.caps, pos, r.pos)]) ELSE <<>>, r.fails)
Bare1(node, pos, cx) ==
  CASE node.k = "grp" -> Items(node.a, 1, pos, cx, <<>>, <<>>)
    [] node.k = "alt" -> Choice(node.a, 1, pos, cx, <<>>)
    [] node.k = "look" -> LET r == M(node.b, pos, [cx EXCEPT !.look = TRUE]) IN IF r.ok # node.a THEN Good(pos, <<>>, <<>>) ELSE Bad(<<>>)
    [] node.k = "rep" -> LET in == IF node.a = 63 THEN cx ELSE [cx EXCEPT !.rep = TRUE] IN
         IF node.a = 63 THEN LET r == M(node.b, pos, in) IN IF r.ok THEN r ELSE Good(pos, <<>>, r.fails)
         ELSE IF node.a = 42 THEN Rep(node.b, pos, in, <<>>, <<>>)
         ELSE LET r == M(node.b, pos, in) IN IF ~r.ok THEN r ELSE Rep(node.b, r.pos, in, r.caps, r.fails)
    [] node.k = "call" -> Call(node, pos, cx)
    [] OTHER -> Terminal(node, pos, cx)
M(node, pos, cx) ==
  LET r == Bare1(node, pos, cx) IN
  IF r.ok /\ node.lab.is /\ node.k # "call"
  THEN [r EXCEPT !.caps = @ \o Keep(cx, [name |-> node.lab.name, from |-> pos, to |-> r.pos, rep |-> cx.rep, val |-> Text(cx, pos, r.pos)])]
  ELSE r
Items(seq, i, pos, cx, caps, fails) ==
  IF i > Len(seq) THEN Good(pos, caps, fails)
  ELSE LET r == M(seq[i], pos, cx) IN IF r.ok THEN Items(seq, i + 1, r.pos, cx, caps \o r.caps, fails \o r.fails) ELSE Bad(fails \o r.fails)
\* a repetition ends when it fails, or succeeds with nothing
Rep(node, pos, cx, caps, fails) ==
  LET r == M(node, pos, cx) IN
  IF ~r.ok THEN Good(pos, caps, fails \o r.fails)
  ELSE IF r.pos = pos THEN Good(pos, caps \o r.caps, fails \o r.fails)
  ELSE Rep(node, r.pos, cx, caps \o r.caps, fails \o r.fails)
Choice(seqs, i, pos, cx, fails) ==
  IF i > Len(seqs) THEN Bad(fails)
  ELSE LET r == Items(seqs[i], 1, pos, cx, <<>>, <<>>) IN
       IF r.ok THEN [r EXCEPT !.fails = fails \o @] ELSE Choice(seqs, i + 1, pos, cx, fails \o r.fails)
----------------------------------------------------------------------------
(* A Pegexp on its own *)
Plain(s, wide) == [s |-> s, wide |-> wide, rules |-> <<>>, look |-> FALSE, rep |-> FALSE, act |-> <<>>, ast |-> FALSE]
Here(seq, s, wide, pos) == Items(seq, 1, pos, Plain(s, wide), <<>>, <<>>)
RECURSIVE Search(_, _, _, _)
Search(seq, s, wide, pos) ==
  LET r == Here(seq, s, wide, pos) IN
  IF r.ok THEN [ok |-> TRUE, from |-> pos, to |-> r.pos, caps |-> r.caps]
  ELSE IF pos >= Len(s) THEN [ok |-> FALSE, from |-> pos, to |-> pos, caps |-> <<>>]
  ELSE Search(seq, s, wide, pos + CharAt(s, wide, pos).n)
(* A Peg: rules from name to [p, seq, caps]; the parse begins with rule TOP *)
TOP == <<84, 79, 80>>
Grammar(rules, s, ast) == [s |-> s, wide |-> TRUE, rules |-> rules, look |-> FALSE, rep |-> FALSE, act |-> <<<<TOP, 0>>>>, ast |-> ast]
Parse(rules, s, ast) == Items(rules[TOP].seq, 1, 0, Grammar(rules, s, ast), <<>>, <<>>)
Outcome(r) == <<"m", Ast(r.caps, 1, <<>>)>>
\* what was expected where the parse could not go on: characters and classes as written, once each
Shown(rules, f) == rules[f.rule].p[f.at] \notin {126, 64, 35, 37, 95, 59, 60, 96, 41, 94, 36, 46, 92, 63, 42, 43, 40, 124, 38, 33}
RECURSIVE Furthest(_, _, _, _)
Furthest(rules, fails, i, acc) ==       \* acc: [far, wants]
  IF i > Len(fails) THEN acc
  ELSE LET f == fails[i] IN
       Furthest(rules, fails, i + 1,
         IF ~Shown(rules, f) \/ f.pos < acc.far THEN acc
         ELSE LET base == IF f.pos > acc.far THEN <<>> ELSE acc.wants IN
              [far |-> f.pos, wants |-> IF \E j \in 1..Len(base) : base[j].rule = f.rule /\ base[j].at = f.at THEN base ELSE Append(base, f)])
Expected(rules, r) == Furthest(rules, r.fails, 1, [far |-> 0, wants |-> <<>>])
=============================================================================
