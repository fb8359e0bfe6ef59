----------------------------- MODULE JsonModel ------------------------------
(* C07: the rendering design of Variant::as_json and StrVal::toJSON, transcribed,  *)
(* checked against the reading of JSON in JsonSpec: every rendering of every        *)
(* chosen value at every indentation parses back to the value.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Chars, Depth
Indents == {-2, -1, 0, 1, 3}
VARIABLES v, ind
J == INSTANCE JsonSpec
V(t, n, s, k, a) == [t |-> t, n |-> n, s |-> s, k |-> k, a |-> a]
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
U4(u) == <<92, 117, Hex(u \div 4096), Hex((u \div 256) % 16), Hex((u \div 16) % 16), Hex(u % 16)>>
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 47 -> <<92, 47>> [] c = 8 -> <<92, 98>>
            [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
            [] c < 32 -> U4(c)
            [] c > 65535 -> U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024))
            [] OTHER -> <<c>>
RECURSIVE EscAll(_)
EscAll(s) == IF s = << >> THEN << >> ELSE Esc(Head(s)) \o EscAll(Tail(s))
Spaces(n) == [i \in 1..n |-> 32]
Sep(i) == CASE i = -2 -> <<44>> [] i = -1 -> <<44, 32>> [] OTHER -> <<44, 10>> \o Spaces(2 * (i + 1))
NextI(i) == IF i < 0 THEN i ELSE i + 1
\* the white space before a closing bracket: one level less, and unchanged if there is not that much
Less2(w) == IF Len(w) < 2 THEN w ELSE SubSeq(w, 1, Len(w) - 2)
RECURSIVE Render(_, _), Items(_, _, _, _)
Render(x, i) ==
   CASE x.t = "None" -> <<110, 117, 108, 108>>
     [] x.t = "Integer" -> x.n
     [] x.t = "String" -> <<34>> \o EscAll(x.s) \o <<34>>
     [] x.t = "VarArray" -> <<91>> \o Tail(Sep(i)) \o Items(x, i, 1, << >>) \o Less2(Tail(Sep(i))) \o <<93>>
     [] x.t = "StrVarMap" -> <<123>> \o Tail(Sep(i)) \o Items(x, i, 1, << >>) \o Less2(Tail(Sep(i))) \o <<125>>
Items(x, i, j, acc) ==
   IF j > Len(x.a) THEN acc
   ELSE Items(x, i, j + 1, acc \o (IF j > 1 THEN Sep(i) ELSE << >>)
                 \o (IF x.t = "StrVarMap" THEN Render(V("String", << >>, x.k[j], << >>, << >>), -1) \o (IF i = -2 THEN <<58>> ELSE <<58, 32>>) ELSE << >>)
                 \o Render(x.a[j], NextI(i)))
RECURSIVE Image(_)
Image(x) == CASE x.t = "None" -> J!JNull
              [] x.t = "Integer" -> J!JV("num", x.n, << >>, << >>, << >>)
              [] x.t = "String" -> J!JV("str", << >>, x.s, << >>, << >>)
              [] x.t = "VarArray" -> J!JV("arr", << >>, << >>, << >>, [i \in 1..Len(x.a) |-> Image(x.a[i])])
              [] OTHER -> J!JV("obj", << >>, << >>, x.k, [i \in 1..Len(x.a) |-> Image(x.a[i])])
WsFor(i) == IF i = -2 THEN {} ELSE IF i = -1 THEN {32} ELSE {32, 10}
Str(s) == V("String", << >>, s, << >>, << >>)
Leaves == {V("None", << >>, << >>, << >>, << >>), V("Integer", <<45, 49, 48>>, << >>, << >>, << >>), Str(<< >>), Str(<<34, 92>>)}
          \cup {Str(<<c>>) : c \in Chars}
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN Leaves
             ELSE LET in == Values(d - 1)
                      few == {V("None", << >>, << >>, << >>, << >>), Str(<<92>>)}
                  IN  in \cup {V("VarArray", << >>, << >>, << >>, a) : a \in {<< >>} \cup {<<x>> : x \in in} \cup {<<x, y>> : x \in in, y \in few}}
                         \cup {V("StrVarMap", << >>, << >>, << >>, << >>)}
                         \cup {V("StrVarMap", << >>, << >>, <<k, <<122>>>>, <<x, y>>) : k \in {<< >>, <<34>>}, x \in in, y \in few}
Init == v \in Values(Depth) /\ ind \in Indents
Spec == Init /\ [][FALSE]_<<v, ind>>
RoundTrip == LET p == J!Parsed(Render(v, ind), WsFor(ind)) IN p.ok /\ p.v = Image(v)
EscRound == v.t = "String" => LET u == J!Unescaped(EscAll(v.s)) IN u.ok /\ u.s = v.s
=============================================================================
