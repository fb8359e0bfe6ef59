-------------------------------- MODULE RxSpec --------------------------------
(* C16, C17: regular expressions.  An expression (a sequence of characters) is read, under
   the features that are on, as a tree; the tree denotes a relation between places in a text:
   where a match may start, and where it may then end.

   The match that is to be reported is the leftmost, and of those the longest. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CS == INSTANCE CharSpec
----------------------------------------------------------------------------
(* Features, as in RxFeature *)
FCEsc == 1  FShort == 2  FOct == 4  FHex == 8  FUni == 16  FProp == 32  FCls == 64
FQuest == 256  FStar == 512  FPlus == 1024  FCount == 2048  FAlt == 4096  FGroup == 8192
FCapture == 16384  FNonCap == 32768  FLook == 65536  FBOL == 262144  FEOL == 524288
FAnyIsQuest == 16777216  FStarAny == 33554432  FExtended == 536870912
All == 1048575
HasBit(m, b) == (m \div b) % 2 = 1
On(cx, b) == HasBit(cx.on, b) /\ ~HasBit(cx.rej, b)
Rej(cx, b) == HasBit(cx.rej, b)
----------------------------------------------------------------------------
(* Reading.  A token: t kind, a and b its operands, n the index after it *)
PC(p, i) == IF i <= Len(p) THEN p[i] ELSE -1
Octal(c) == c \in 48..55
DecDigit(c) == c \in 48..57
Hex(c) == DecDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF DecDigit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Blank(c) == c \in {32, 9, 10, 13}
RECURSIVE Digits(_, _, _, _, _)
Digits(p, i, most, radix, v) == IF most > 0 /\ (IF radix = 8 THEN Octal(PC(p, i)) ELSE Hex(PC(p, i))) THEN Digits(p, i + 1, most - 1, radix, v * radix + HexVal(p[i])) ELSE [c |-> v, n |-> i]
RECURSIVE Find(_, _, _)
Find(p, i, c) == IF i > Len(p) THEN 0 ELSE IF p[i] = c THEN i ELSE Find(p, i + 1, c)
T(t, a, b, n) == [t |-> t, a |-> a, b |-> b, n |-> n]
\* what may not be: b says where, at the latest, that is to be reported (counting from 0)
BadTo(i, b) == T("err", 0, b, i)
Bad(i) == BadTo(i, i + 1)
\* a count is a number, perhaps signed and with blanks about it; without digits it is zero.  -1 when it is not
RECURSIVE Dec(_, _)
Dec(d, v) == IF d = <<>> THEN v ELSE IF ~DecDigit(Head(d)) THEN -1 ELSE Dec(Tail(d), IF v > 999 THEN 1000 ELSE v * 10 + Head(d) - 48)
RECURSIVE Front(_), Back(_)
Front(d) == IF d # <<>> /\ Blank(Head(d)) THEN Front(Tail(d)) ELSE d
Back(d) == IF d # <<>> /\ Blank(d[Len(d)]) THEN Back(SubSeq(d, 1, Len(d) - 1)) ELSE d
Number(d0) == LET d == Back(Front(d0)) signed == d # <<>> /\ Head(d) \in {43, 45}
                  v == Dec(IF signed THEN Front(Tail(d)) ELSE d, 0)
              IN IF signed /\ Head(d) = 45 /\ v > 0 THEN -1 ELSE v
Counts(p, i) ==                     \* after the {
  LET close == Find(p, i, 125) IN
  IF close = 0 THEN BadTo(i, Len(p))
  ELSE LET comma == Find(SubSeq(p, 1, close), i, 44)
           min == Number(SubSeq(p, i, (IF comma = 0 THEN close ELSE comma) - 1))
           max == IF comma = 0 THEN min ELSE Number(SubSeq(p, comma + 1, close - 1))
       IN IF min < 0 \/ max < 0 \/ (max # 0 /\ max < min) \/ min > 254 \/ max > 254 THEN BadTo(i, close - 1) ELSE T("rep", min, max, close + 1)
\* a character of a class, and the index after it
ClsChar(p, i) == IF PC(p, i) = 92 THEN [c |-> PC(p, i + 1), n |-> i + 2] ELSE [c |-> PC(p, i), n |-> i + 1]
RECURSIVE Ranges(_, _, _)
Ranges(p, i, acc) ==
  IF PC(p, i) = -1 THEN [ok |-> FALSE, r |-> acc, n |-> i]
  ELSE IF p[i] = 93 THEN [ok |-> TRUE, r |-> acc, n |-> i + 1]
  ELSE LET x == ClsChar(p, i) IN
       IF x.c = -1 THEN [ok |-> FALSE, r |-> acc, n |-> i]
       ELSE IF PC(p, x.n) = 45 /\ PC(p, x.n + 1) # 93
            THEN LET y == ClsChar(p, x.n + 1) IN IF y.c = -1 THEN [ok |-> FALSE, r |-> acc, n |-> i] ELSE Ranges(p, y.n, Append(acc, <<x.c, y.c>>))
            ELSE Ranges(p, x.n, Append(acc, <<x.c, x.c>>))
Class(p, i0) ==                     \* after the [
  LET neg == PC(p, i0) = 94
      i == IF neg THEN i0 + 1 ELSE i0
      first == PC(p, i) \in {45, 93}
      x == Ranges(p, IF first THEN i + 1 ELSE i, IF first THEN <<<<p[i], p[i]>>>> ELSE <<>>)
  IN IF x.ok THEN T("cls", neg, x.r, x.n) ELSE BadTo(i0, Len(p))
Escape(p, i, cx) ==                 \* i is after the backslash
  LET c == PC(p, i)
      Code(x) == IF x.n = i + 1 THEN Bad(i) ELSE T("lit", x.c, 0, x.n)
      Ctl == CASE c = 98 -> 8 [] c = 101 -> 27 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13
  IN CASE c = -1 -> Bad(i)
       [] c \in {98, 101, 102, 110, 116, 114} /\ On(cx, FCEsc) -> T("lit", Ctl, 0, i + 1)
       [] Octal(c) /\ On(cx, FOct) -> LET x == Digits(p, i, 3, 8, 0) IN T("lit", x.c, 0, x.n)
       [] c = 120 /\ On(cx, FHex) -> Code(Digits(p, i + 1, 2, 16, 0))
       [] c = 117 /\ On(cx, FUni) -> Code(Digits(p, i + 1, 5, 16, 0))
       [] c \in {115, 100, 104} /\ On(cx, FShort) -> T("prop", <<c>>, 0, i + 1)
       [] c = 112 /\ On(cx, FProp) -> LET close == Find(p, i + 2, 125) IN
                                      IF PC(p, i + 1) # 123 \/ close <= i + 2 THEN Bad(i) ELSE T("prop", SubSeq(p, i + 2, close - 1), 0, close + 1)
       [] OTHER -> T("lit", c, 0, i + 1)
Group(p, i, cx) ==                  \* after the (
  IF ~(On(cx, FCapture) \/ On(cx, FNonCap) \/ On(cx, FLook)) \/ PC(p, i) # 63 THEN T("grp", 0, 0, i)
  ELSE LET c == PC(p, i + 1) IN
       CASE c = 60 -> LET close == Find(p, i + 2, 62) IN
                      IF ~On(cx, FCapture) \/ close <= i + 2 THEN Bad(i) ELSE T("cap", SubSeq(p, i + 2, close - 1), 0, close + 1)
         [] c = 58 -> IF On(cx, FNonCap) THEN T("grp", 0, 0, i + 2) ELSE Bad(i)
         [] c = 33 -> IF On(cx, FLook) THEN T("look", 0, 0, i + 2) ELSE Bad(i)
         [] OTHER -> Bad(i)
RECURSIVE Comment(_, _)
Comment(p, i) == IF i > Len(p) \/ p[i] = 10 THEN i + 1 ELSE Comment(p, i + 1)
\* a feature that is off leaves the character as it is; one that is rejected may not be used
Tok(p, i, cx) ==
  LET c == p[i]
      If(f, tok) == IF Rej(cx, f) THEN Bad(i) ELSE IF On(cx, f) THEN tok ELSE T("lit", c, 0, i + 1)
  IN CASE c = 94 -> If(FBOL, T("bol", 0, 0, i + 1))
       [] c = 36 -> If(FEOL, T("eol", 0, 0, i + 1))
       [] c = 46 -> IF On(cx, FAnyIsQuest) THEN T("lit", c, 0, i + 1) ELSE T("any", 0, 0, i + 1)
       [] c = 63 -> IF On(cx, FAnyIsQuest) THEN T("any", 0, 0, i + 1) ELSE If(FQuest, T("rep", 0, 1, i + 1))
       [] c = 42 -> If(FStar, IF On(cx, FStarAny) THEN T("star", 0, 0, i + 1) ELSE T("rep", 0, 0, i + 1))
       [] c = 43 -> If(FPlus, T("rep", 1, 0, i + 1))
       [] c = 123 -> If(FCount, Counts(p, i + 1))
       [] c = 92 -> Escape(p, i + 1, cx)
       [] c = 91 -> If(FCls, Class(p, i + 1))
       [] c = 124 -> If(FAlt, T("alt", 0, 0, i + 1))
       [] c = 40 -> If(FGroup, Group(p, i + 1, cx))
       [] c = 41 -> IF On(cx, FGroup) THEN T("end", 0, 0, i + 1) ELSE T("lit", c, 0, i + 1)
       [] Blank(c) /\ On(cx, FExtended) -> T("skip", 0, 0, IF PC(p, i + 1) = 35 THEN Comment(p, i + 1) ELSE i + 1)
       [] OTHER -> T("lit", c, 0, i + 1)
(* Trees.  [k, a, b, c]: lit a | any | bol | eol | prop a | cls a=negated b=ranges
   | grp a=alternates | cap a=alternates b=its number | look a=alternates | rep a=min b=max (0: any) c=node *)
N(k, a, b, c) == [k |-> k, a |-> a, b |-> b, c |-> c]
Deepest == 11
RECURSIVE Seq_(_, _, _, _, _, _)
\* one group, from i: its alternates, the last of them still growing; names so far
Seq_(p, i, cx, depth, alts, names) ==
  LET R(ok, n) == [ok |-> ok, alts |-> alts, n |-> n, names |-> names, to |-> 0]
      No(to) == [R(FALSE, i) EXCEPT !.to = to]      \* refused: from the token at i to the place to
      cur == alts[Len(alts)]
      With(node) == [alts EXCEPT ![Len(alts)] = Append(@, node)]
  IN IF i > Len(p) THEN [R(depth = 0, 1) EXCEPT !.to = Len(p)]
     ELSE LET t == Tok(p, i, cx) IN
          CASE t.t = "err" -> No(t.b)
            [] t.t = "skip" -> Seq_(p, t.n, cx, depth, alts, names)
            [] t.t = "end" -> IF depth > 0 THEN R(TRUE, t.n) ELSE No(i - 1)
            [] t.t = "alt" -> Seq_(p, t.n, cx, depth, Append(alts, <<>>), names)
            [] t.t = "star" -> Seq_(p, t.n, cx, depth, With(N("rep", 0, 0, N("any", 0, 0, 0))), names)
            [] t.t = "rep" -> IF cur = <<>> \/ cur[Len(cur)].k \in {"bol", "eol", "rep"} THEN No(t.n - 2)
                              ELSE Seq_(p, t.n, cx, depth, [alts EXCEPT ![Len(alts)] = [@ EXCEPT ![Len(@)] = N("rep", t.a, t.b, @)]], names)
            [] t.t \in {"grp", "cap", "look"} ->
                 IF depth = Deepest \/ (t.t = "cap" /\ (Len(names) >= 254 \/ \E x \in 1..Len(names) : names[x] = t.a)) THEN No(t.n - 2)
                 ELSE LET num == Len(names) + 1
                          g == Seq_(p, t.n, cx, depth + 1, <<<<>>>>, IF t.t = "cap" THEN Append(names, t.a) ELSE names)
                      IN IF ~g.ok THEN g ELSE Seq_(p, g.n, cx, depth, With(N(t.t, g.alts, num, 0)), g.names)
            [] OTHER -> Seq_(p, t.n, cx, depth, With(N(t.t, t.a, t.b, 0)), names)
Read(p, cx) == Seq_(p, 1, cx, 0, <<<<>>>>, <<>>)
----------------------------------------------------------------------------
(* Meaning.  A state is a place in the text (0 is before its first character), and what the
   groups captured on the way; Img gives the states after a node, of a set before it. *)
NL == 10
At(s, j) == s[j + 1]
Prop(a, c) == CASE a = <<115>> -> CS!White(c) [] a = <<100>> -> CS!Digit(c) >= 0 [] a = <<104>> -> CS!Digit(c) >= 0 \/ Hex(c) [] OTHER -> TRUE
One(n, c) == CASE n.k = "lit" -> c = n.a
               [] n.k = "any" -> TRUE
               [] n.k = "prop" -> Prop(n.a, c)
               [] n.k = "cls" -> n.a # (\E r \in 1..Len(n.b) : c >= n.b[r][1] /\ c <= n.b[r][2])
RECURSIVE Img(_, _, _), ImgSeq(_, _, _, _), Times(_, _, _, _), Close(_, _, _, _)
ImgAlts(alts, s, S) == UNION {ImgSeq(alts[x], 1, s, S) : x \in 1..Len(alts)}
ImgSeq(seq, x, s, S) == IF x > Len(seq) \/ S = {} THEN S ELSE ImgSeq(seq, x + 1, s, Img(seq[x], s, S))
Times(n, s, S, k) == IF k = 0 \/ S = {} THEN S ELSE Times(n, s, Img(n, s, S), k - 1)
\* up to k more (k < 0: any number); new: the states that came last
Close(n, s, all, k) == IF k = 0 THEN all ELSE LET x == all \cup Img(n, s, all) IN IF x = all THEN all ELSE Close(n, s, x, k - 1)
Img(n, s, S) ==
  CASE n.k \in {"lit", "any", "prop", "cls"} -> {[q EXCEPT !.j = @ + 1] : q \in {q \in S : q.j < Len(s) /\ One(n, At(s, q.j))}}
    [] n.k = "bol" -> {q \in S : q.j = 0 \/ At(s, q.j - 1) = NL}
    [] n.k = "eol" -> {q \in S : q.j = Len(s) \/ At(s, q.j) = NL}
    [] n.k = "grp" -> ImgAlts(n.a, s, S)
    [] n.k = "cap" -> UNION {{[x EXCEPT !.g = [@ EXCEPT ![n.b] = <<q.j, x.j>>]] : x \in ImgAlts(n.a, s, {q})} : q \in S}
    [] n.k = "look" -> {q \in S : ImgAlts(n.a, s, {q}) = {}}
    [] n.k = "rep" -> Close(n.c, s, Times(n.c, s, S, n.a), IF n.b = 0 THEN -1 ELSE n.b - n.a)
\* the ends of the matches that start at i
Blind(t) == [x \in 1..Len(t.names) |-> <<0, 0>>]           \* nothing captured
From(t, s, i) == ImgAlts(t.alts, s, {[j |-> i, g |-> Blind(t)]})
\* trees without their captures, for finding the place only
RECURSIVE Bare(_), BareAlts(_)
BareAlts(alts) == [x \in 1..Len(alts) |-> [y \in 1..Len(alts[x]) |-> Bare(alts[x][y])]]
Bare(n) == CASE n.k \in {"grp", "look"} -> [n EXCEPT !.a = BareAlts(@)] [] n.k = "cap" -> N("grp", BareAlts(n.a), 0, 0) [] n.k = "rep" -> [n EXCEPT !.c = Bare(@)] [] OTHER -> n
Ends(b, s, i) == {q.j : q \in ImgAlts(b, s, {[j |-> i, g |-> <<>>]})}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
None == [ok |-> FALSE, from |-> 0, to |-> 0]
RECURSIVE First(_, _, _)
First(b, s, i) == IF i > Len(s) THEN None ELSE LET E == Ends(b, s, i) IN IF E # {} THEN [ok |-> TRUE, from |-> i, to |-> Max(E)] ELSE First(b, s, i + 1)
Search(b, s, off) == First(b, s, off)
Anchored(b, s, off) == IF off > Len(s) THEN None ELSE LET E == Ends(b, s, off) IN IF E = {} THEN None ELSE [ok |-> TRUE, from |-> off, to |-> Max(E)]
\* g: what every group captured, as <<from, to>>, <<0, 0>> if it took no part
Captured(t, s, m, g) == \E q \in From(t, s, m.from) : q.j = m.to /\ q.g = g
=============================================================================
