------------------------------- MODULE RxModel --------------------------------
(* An expression is run as a program of threads that step together through the text, each
   with its place in the program, the counters of the repetitions it is in, and what it has
   captured.  A place where a thread has been, with the same counters, need not be followed
   again; of the threads that finish, the one that starts first and ends last is the result.
   Over every expression of up to MaxPieces Pieces and every text of up to MaxText Chars,
   the program must find what RxSpec says, from every place it is asked to start.
   The switches are what it takes to be right; without Saturate it does not even stay small. *)
EXTENDS RxSpec
CONSTANTS MaxPieces, MaxText, Pieces, Chars, Record,
          SameCounts,     \* threads with other counters are other threads
          Bypass,         \* a repetition that may be absent may be absent
          LastEnd,        \* the longest match wins
          FirstStart,     \* the leftmost does
          Continue,       \* what did not start at this place may start at the next
          Saturate        \* counting stops at the limit
VARIABLES w, depth, again           \* the pieces, how many groups are open, and whether the last may be repeated
vars == <<w, depth, again>>
Piece == [a |-> <<97>>, b |-> <<98>>, dot |-> <<46>>, op |-> <<40>>, cl |-> <<41>>, alt |-> <<124>>, star |-> <<42>>, quest |-> <<63>>, plus |-> <<43>>,
          two |-> <<123, 50, 125>>, upto2 |-> <<123, 44, 50, 125>>, from2 |-> <<123, 50, 44, 125>>, onetwo |-> <<123, 49, 44, 50, 125>>, twothree |-> <<123, 50, 44, 51, 125>>,
          cap |-> <<40, 63, 60, 120, 62>>, cap2 |-> <<40, 63, 60, 121, 62>>, look |-> <<40, 63, 33>>, bol |-> <<94>>, eol |-> <<36>>,
          cls |-> <<91, 97, 45, 98, 93>>, ncls |-> <<91, 94, 97, 93>>]
Cx == [on |-> All, rej |-> 0]
----------------------------------------------------------------------------
\* Programs: sequences of [op, a, b, c], and addresses in them
I(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]
RECURSIVE Code(_, _), CodeSeq(_, _, _), CodeAlts(_, _, _)
CodeSeq(seq, x, at) == IF x > Len(seq) THEN <<>> ELSE LET c == Code(seq[x], at) IN c \o CodeSeq(seq, x + 1, at + Len(c))
CodeAlts(alts, x, at) ==           \* split, the first, jump to the end, the others
  IF x = Len(alts) THEN CodeSeq(alts[x], 1, at)
  ELSE LET c == CodeSeq(alts[x], 1, at + 1)
           r == CodeAlts(alts, x + 1, at + Len(c) + 2)
       IN <<I("split", at + Len(c) + 2, 0, 0)>> \o c \o <<I("jump", at + Len(c) + 2 + Len(r), 0, 0)>> \o r
Code(n, at) ==
  CASE n.k \in {"lit", "any", "prop", "cls"} -> <<I("one", n, 0, 0)>>
    [] n.k \in {"bol", "eol"} -> <<I(n.k, 0, 0, 0)>>
    [] n.k = "grp" -> CodeAlts(n.a, 1, at)
    [] n.k = "cap" -> <<I("start", n.b, 0, 0)>> \o CodeAlts(n.a, 1, at + 1) \o <<I("end", n.b, 0, 0)>>
    [] n.k = "look" -> LET c == CodeAlts(n.a, 1, at + 1) IN <<I("look", at + Len(c) + 2, 0, 0)>> \o c \o <<I("accept", 0, 0, 0)>>
    [] n.k = "rep" -> LET c == Code(n.c, at + 1) IN
         IF n.a = 0 /\ n.b = 0 THEN <<I("split", at + Len(c) + 2, 0, 0)>> \o c \o <<I("jump", at, 0, 0)>>
         ELSE IF n.a = 0 /\ n.b = 1 THEN <<I("split", at + Len(c) + 1, 0, 0)>> \o c
         ELSE IF n.a = 1 /\ n.b = 0 THEN LET d == Code(n.c, at) IN d \o <<I("split", at, 0, 0)>>
         ELSE <<I("zero", n.a, at + Len(c) + 2, 0)>> \o c \o <<I("count", n.a, n.b, at + 1)>>
Program(alts) == LET c == <<I("begin", 0, 0, 0)>> \o CodeAlts(alts, 1, 2) IN c \o <<I("accept", 0, 0, 0), I("split", 1, 0, 0), I("one", N("any", 0, 0, 0), 0, 0), I("jump", Len(c) + 2, 0, 0)>>
SearchAt(prog) == Len(prog) - 2
----------------------------------------------------------------------------
\* A thread: pc, cs the counters <<where the repetition began, how many>>, from, g
Place(t, j) == <<t.pc, IF SameCounts THEN [x \in 1..Len(t.cs) |-> <<t.cs[x][2], t.cs[x][1] = j>>] ELSE <<>>>>
Min2(a, b) == IF a < b THEN a ELSE b
Best(t, j) == [ok |-> TRUE, from |-> t.from, to |-> j, g |-> t.g, wide |-> 0]
NoBest == [ok |-> FALSE, from |-> 0, to |-> 0, g |-> <<>>, wide |-> 0]
Better(best, t, j) == ~best.ok \/ (FirstStart /\ t.from < best.from) \/ (LastEnd /\ t.from = best.from /\ j > best.to) \/ (~FirstStart /\ LastEnd /\ j - t.from > best.to - best.from)
Nowhere == [seen |-> {}, ready |-> <<>>]
\* follow those of todo (the last of them first) until they consume something.  st: seen places, and the threads ready for the next step
RECURSIVE Follow(_, _, _, _, _), Cycle(_, _, _, _, _, _)
Follow(prog, s, j, todo, st) ==
  IF todo = <<>> THEN st
  ELSE LET t == todo[Len(todo)]
           rest == SubSeq(todo, 1, Len(todo) - 1)
           at == Place(t, j)
           st2 == [st EXCEPT !.seen = @ \cup {at}]
           i == prog[t.pc]
           Next1 == [t EXCEPT !.pc = @ + 1]
           Go(q) == Follow(prog, s, j, rest \o q, st2)
       IN IF at \in st.seen \/ Cardinality(st.seen) > 300 THEN Follow(prog, s, j, rest, st)
          ELSE CASE i.op = "bol" -> Go(IF j = 0 \/ At(s, j - 1) = NL THEN <<Next1>> ELSE <<>>)
                 [] i.op = "eol" -> Go(IF j = Len(s) \/ At(s, j) = NL THEN <<Next1>> ELSE <<>>)
                 [] i.op = "jump" -> Go(<<[t EXCEPT !.pc = i.a]>>)
                 [] i.op = "begin" -> Go(<<[Next1 EXCEPT !.from = j]>>)
                 [] i.op = "split" -> Go(<<Next1, [t EXCEPT !.pc = i.a]>>)
                 [] i.op = "start" -> Go(<<[Next1 EXCEPT !.g[i.a] = <<j, @[2]>>]>>)
                 [] i.op = "end" -> Go(<<[Next1 EXCEPT !.g[i.a] = <<@[1], j>>]>>)
                 [] i.op = "zero" -> Go((IF Bypass /\ i.a = 0 THEN <<[t EXCEPT !.pc = i.b]>> ELSE <<>>) \o <<[Next1 EXCEPT !.cs = Append(@, <<j, 0>>)]>>)
                 [] i.op = "count" ->
                      LET top == t.cs[Len(t.cs)]
                          most == IF i.b = 0 THEN i.a ELSE i.b
                          n == IF Saturate THEN Min2(top[2] + 1, most) ELSE top[2] + 1
                          empty == top[1] = j
                          more == [t EXCEPT !.cs[Len(t.cs)] = <<j, n>>, !.pc = i.c]
                          on == [Next1 EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1)]
                      IN Go((IF n >= i.a \/ empty THEN <<on>> ELSE <<>>) \o (IF n < i.b \/ i.b = 0 THEN <<more>> ELSE <<>>))
                 [] i.op = "look" -> LET in == [t EXCEPT !.pc = @ + 1, !.cs = <<>>]
                                         x == Follow(prog, s, j, <<in>>, Nowhere)
                                         r == Cycle(prog, s, j, x, NoBest, 0)
                                     IN Go(IF r.ok THEN <<>> ELSE <<[t EXCEPT !.pc = i.a]>>)
                 [] OTHER -> Follow(prog, s, j, rest, [st2 EXCEPT !.ready = Append(@, t)])
RECURSIVE Steps(_, _, _, _, _, _)
\* each of the threads, at j: what is best, and those that go on
Steps(prog, s, j, ts, best, st) ==
  IF ts = <<>> THEN [best |-> best, st |-> st]
  ELSE LET t == Head(ts) i == prog[t.pc] IN
       IF i.op = "accept" THEN Steps(prog, s, j, Tail(ts), IF Better(best, t, j) THEN Best(t, j) ELSE best, st)
       ELSE IF j < Len(s) /\ One(i.a, At(s, j))
            THEN Steps(prog, s, j, Tail(ts), best,
                       Follow(prog, s, j + 1, <<[t EXCEPT !.pc = @ + 1]>>, st))
            ELSE Steps(prog, s, j, Tail(ts), best, st)
Cycle(prog, s, j, st, best, wide) ==
  LET most == IF Cardinality(st.seen) > wide THEN Cardinality(st.seen) ELSE wide IN
  IF st.ready = <<>> \/ j > Len(s) \/ (~Continue /\ best.ok) THEN [best EXCEPT !.wide = most]
  ELSE LET x == Steps(prog, s, j, st.ready, best, Nowhere) IN Cycle(prog, s, j + 1, x.st, x.best, most)
Machine(prog, t, s, at, j) == Cycle(prog, s, j, Follow(prog, s, j, <<[pc |-> at, cs |-> <<>>, from |-> 0, g |-> Blind(t)]>>, Nowhere), NoBest, 0)
----------------------------------------------------------------------------
\* How many places there are: those inside a repetition that counts, once for every count
RECURSIVE Room(_, _), RoomAlts(_, _, _, _)
RoomAlts(alts, x, y, m) == IF x > Len(alts) THEN 0 ELSE IF y > Len(alts[x]) THEN 2 * m + RoomAlts(alts, x + 1, 1, m) ELSE Room(alts[x][y], m) + RoomAlts(alts, x, y + 1, m)
Room(n, m) == CASE n.k \in {"grp", "cap", "look"} -> 2 * m + RoomAlts(n.a, 1, 1, m)
                [] n.k = "rep" -> 2 * m + (IF <<n.a, n.b>> \in {<<0, 0>>, <<0, 1>>, <<1, 0>>} THEN Room(n.c, m) ELSE LET k == m * 2 * (1 + IF n.b = 0 THEN n.a ELSE n.b) IN k + Room(n.c, k))
                [] OTHER -> m
----------------------------------------------------------------------------
Groups == {"op", "cap", "cap2", "look"}
Repeats == {"star", "quest", "plus", "two", "upto2", "from2", "onetwo", "twothree"}
Init == w = <<>> /\ depth = 0 /\ again = FALSE
Next == \E q \in Pieces :
  /\ w' = Append(w, q)
  /\ q \in Repeats => again
  /\ q \in {"cap", "cap2"} => \A x \in 1..Len(w) : w[x] # q
  /\ depth' = depth + (IF q \in Groups THEN 1 ELSE IF q = "cl" THEN -1 ELSE 0)
  /\ depth' >= 0 /\ Len(w) + 1 + depth' <= MaxPieces
  /\ again' = (q \notin Groups \cup Repeats \cup {"alt", "bol", "eol"})
Spec == Init /\ [][Next]_vars
RECURSIVE Chs(_, _)
Chs(q, x) == IF x > Len(q) THEN <<>> ELSE Piece[q[x]] \o Chs(q, x + 1)
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Right(t, s, m, r) == r.ok = m.ok /\ (m.ok => r.from = m.from /\ r.to = m.to /\ (t.names # <<>> => Captured(t, s, m, r.g)))
Whole == depth = 0
Agree == Whole =>
  LET t == Read(Chs(w, 1), Cx)
      b == BareAlts(t.alts)
      prog == Program(t.alts)
      room == RoomAlts(t.alts, 1, 1, 1) + 6
  IN /\ t.ok
     /\ \A s \in Texts :
          LET r == Machine(prog, t, s, SearchAt(prog), 0) IN
          /\ Right(t, s, Search(b, s, 0), r) /\ r.wide <= room
          /\ \A j \in 0..Len(s) : Right(t, s, Anchored(b, s, j), Machine(prog, t, s, 1, j))
Script == Record /\ Whole /\ Len(w) >= MaxPieces - 1 => PrintT(<<"SCRIPT", ToString(Chs(w, 1))>>)
=============================================================================
