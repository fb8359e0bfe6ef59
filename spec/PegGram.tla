------------------------------- MODULE PegGram -------------------------------
(* How a Peg parses: a chain of contexts, one for each rule that is being tried, each with
   the captures made so far and what they replaced, so that they can be taken back; the
   outermost also has the furthest place where something was wanted, and what.  Over every
   grammar of two rules of up to MaxTop and MaxSub tokens, this must agree with the meaning
   of the grammar (PegSpec!Parse), which has no state at all: in outcome, in the value
   delivered and in what is said to have been expected. *)
EXTENDS PegSpec, TLC
CONSTANTS MaxTop, MaxSub, MaxText, LeftRecursion, RollBack, Further, Once, Record, Toks
VARIABLES p, q, s
vars == <<p, q, s>>
A == <<97>>
X == <<120>>
\* a b <a> ?  *  |  (  )  !  :x:
Tokens == LET all == <<<<97>>, <<98>>, <<60, 97, 62>>, <<63>>, <<42>>, <<124>>, <<40>>, <<41>>, <<33>>, <<58, 120, 58>>>> IN {all[i] : i \in Toks}
RECURSIVE Bodies(_)
Bodies(n) == IF n = 0 THEN {<<>>} ELSE LET B == Bodies(n - 1) IN B \cup {b \o t : b \in B, t \in Tokens}
Empty(n) == n.to = n.at
RECURSIVE Formed(_, _), FormedSeq(_, _), OfCall(_)
OfCall(n) == n.k = "call" \/ (n.k = "rep" /\ OfCall(n.b))          \* a call takes every label that follows
Formed(b, n) == (n.lab.is => n.lab.name # <<>> /\ n.k # "look" /\ ~(n.k = "rep" /\ OfCall(n))) /\
             CASE n.k \in {"rep", "look"} -> ~Empty(n.b) /\ Formed(b, n.b)
               [] n.k = "grp" -> FormedSeq(b, n.a) /\ b[n.to - 1] = 41
               [] n.k = "alt" -> (\A i \in 1..Len(n.a) : FormedSeq(b, n.a[i]) /\ (i < Len(n.a) => n.a[i] # <<>>)) /\ ~(Len(n.a[1]) > 0 /\ n.a[1][1].k = "alt")
               [] n.k = "lit" -> b[n.at] # 58
               [] OTHER -> TRUE
FormedSeq(b, seq) == \A i \in 1..Len(seq) : Formed(b, seq[i])
Good1(b) == LET t == Read(b, TRUE) IN t.ok /\ FormedSeq(b, t.seq)
Grams(n) == {b \in Bodies(n) : Good1(b)}
RuleOf(b) == [p |-> b, seq |-> Read(b, TRUE).seq, caps |-> {A, X}]
Rules == (TOP :> RuleOf(p)) @@ (A :> RuleOf(q))
----------------------------------------------------------------------------
(* A context: rule, where it started, and its captures: the map, and the undo log
   A state: pos, cx: the chain of contexts, far and wants.  look and rep go with the code *)
NoVal == <<"none">>
Ctx(name, pos) == [rule |-> name, from |-> pos, map |-> <<>>, undo |-> <<>>]
Top(st) == st.cx[Len(st.cx)]
PutMap(st, m, u) == [st EXCEPT !.cx[Len(st.cx)].map = m, !.cx[Len(st.cx)].undo = u]
Capture(st, name, val, rep) ==
  IF val = <<"s", <<>>>> THEN st
  ELSE LET m == Top(st).map old == IF name \in DOMAIN m THEN m[name] ELSE NoVal
           new == IF old = NoVal THEN (IF rep THEN <<"a", <<val>>>> ELSE val)
                  ELSE IF old[1] = "a" THEN <<"a", Append(old[2], val)>> ELSE <<"a", <<old, val>>>>
       IN PutMap(st, (name :> new) @@ m, Append(Top(st).undo, [name |-> name, old |-> old]))
RECURSIVE Undo(_, _)
Undo(st, n) ==
  LET u == Top(st).undo m == Top(st).map IN
  IF Len(u) <= n THEN st
  ELSE IF ~RollBack THEN (IF n = 0 THEN PutMap(st, <<>>, <<>>) ELSE st)          \* all or nothing
  ELSE LET x == u[Len(u)] IN
       Undo(PutMap(st, IF x.old = NoVal THEN [k \in DOMAIN m \ {x.name} |-> m[k]] ELSE (x.name :> x.old) @@ m, SubSeq(u, 1, Len(u) - 1)), n)
Want(st, node, pos, look) ==
  LET nm == Top(st).rule f == [rule |-> nm, at |-> node.at, to |-> node.to, path |-> [i \in 1..Len(st.cx) |-> st.cx[i].rule]] IN
  IF pos < st.far \/ look \/ ~Shown(Rules, f) THEN st
  ELSE LET base == IF pos > st.far /\ Further THEN <<>> ELSE st.wants IN
       [st EXCEPT !.far = pos, !.wants = IF Once /\ \E j \in 1..Len(base) : base[j].rule = f.rule /\ base[j].at = f.at THEN base ELSE Append(base, f)]
\* looking out through the chain, no further than those that started here
RECURSIVE Again(_, _, _, _)
Again(cx, i, name, pos) == IF i = 0 \/ cx[i].from < pos THEN FALSE ELSE cx[i].rule = name \/ Again(cx, i - 1, name, pos)
Yes(st) == [ok |-> TRUE, st |-> st]
No(st) == [ok |-> FALSE, st |-> st]
RECURSIVE XM(_, _, _, _), XSeq(_, _, _, _, _), XRep(_, _, _, _), XAlt(_, _, _, _, _, _)
XSeq(seq, i, st, look, rep) == IF i > Len(seq) THEN Yes(st) ELSE LET r == XM(seq[i], st, look, rep) IN IF r.ok THEN XSeq(seq, i + 1, r.st, look, rep) ELSE r
XRep(node, st, look, once) ==
  LET r == XM(node, st, look, TRUE) IN IF ~r.ok \/ r.st.pos = st.pos THEN Yes(r.st) ELSE XRep(node, r.st, look, once)
XAlt(seqs, i, st, n, look, rep) ==
  IF i > Len(seqs) THEN No(st)
  ELSE LET r == XSeq(seqs[i], 1, st, look, rep) IN IF r.ok THEN r ELSE XAlt(seqs, i + 1, Undo([r.st EXCEPT !.pos = st.pos], n), n, look, rep)
XCall(node, st, look, rep) ==
  LET name == node.a IN
  IF name \notin DOMAIN Rules \/ (LeftRecursion /\ Again(st.cx, Len(st.cx), name, st.pos)) \/ Len(st.cx) > 12 THEN No(st)
  ELSE LET r == XSeq(Rules[name].seq, 1, [st EXCEPT !.cx = Append(@, Ctx(name, st.pos))], look, FALSE)
           out == [r.st EXCEPT !.cx = SubSeq(@, 1, Len(st.cx))]
           val == IF Top(r.st).undo # <<>> THEN <<"m", Top(r.st).map>> ELSE <<"s", SubSeq(s, st.pos + 1, r.st.pos)>>
           as == IF node.lab.is THEN node.lab.name ELSE name
       IN IF ~r.ok THEN No(out) ELSE Yes(IF ~look /\ as \in Rules[Top(st).rule].caps THEN Capture(out, as, val, rep) ELSE out)
XM(node, st, look, rep) ==
  LET n == Len(Top(st).undo)
      r == CASE node.k = "grp" -> XSeq(node.a, 1, st, look, rep)
             [] node.k = "alt" -> XAlt(node.a, 1, st, n, look, rep)
             [] node.k = "look" -> LET x == XM(node.b, st, TRUE, rep) IN [ok |-> x.ok # node.a, st |-> [x.st EXCEPT !.pos = st.pos]]
             [] node.k = "rep" -> IF node.a = 63 THEN Yes(XM(node.b, st, look, rep).st) ELSE XRep(node.b, st, look, FALSE)
             [] node.k = "call" -> XCall(node, st, look, rep)
             [] OTHER -> LET hit == st.pos < Len(s) /\ s[st.pos + 1] = node.a IN IF hit THEN Yes([st EXCEPT !.pos = @ + 1]) ELSE No(Want(st, node, st.pos, look))
  IN IF ~r.ok THEN No(Undo([r.st EXCEPT !.pos = st.pos], n))
     ELSE IF node.lab.is /\ node.k # "call" /\ ~look THEN Yes(Capture(r.st, node.lab.name, <<"s", SubSeq(s, st.pos + 1, r.st.pos)>>, rep)) ELSE r
XParse == XSeq(Rules[TOP].seq, 1, [pos |-> 0, cx |-> <<Ctx(TOP, 0)>>, far |-> 0, wants |-> <<>>], FALSE, FALSE)
----------------------------------------------------------------------------
Texts == UNION {[1..n -> {97, 98}] : n \in 0..MaxText}
None == <<0>>
Init == p = None /\ q = None /\ s = None
Next == \/ p = None /\ p' \in Grams(MaxTop) /\ UNCHANGED <<q, s>>
        \/ p # None /\ q = None /\ q' \in Grams(MaxSub) /\ UNCHANGED <<p, s>>
        \/ ~Record /\ q # None /\ s = None /\ s' \in Texts /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars
Agree == s # None =>
         LET d == Parse(Rules, s, TRUE) x == XParse w == Expected(Rules, d) IN
         /\ d.ok = x.ok
         /\ d.ok => d.pos = x.st.pos /\ Outcome(d) = <<"m", Top(x.st).map>>
         /\ w.far = x.st.far
         /\ Len(w.wants) = Len(x.st.wants)
         /\ \A i \in 1..Len(w.wants) : w.wants[i].rule = x.st.wants[i].rule /\ w.wants[i].at = x.st.wants[i].at /\ w.wants[i].path = x.st.wants[i].path
Script == Record /\ q # None => PrintT(<<"SCRIPT", ToString(<<p, q>>)>>)
=============================================================================
