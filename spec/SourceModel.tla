------------------------------- MODULE SourceModel -------------------------------
(* The counters a source keeps, stepped as each unit is read and copied with it, are
   those of SourceSpec, whatever two sources over every small text do. *)
EXTENDS SourceSpec, TLC
CONSTANTS MaxLen, MaxOps, Record
Bytes == {65, 10, 195, 138}          \* 195 138 one character; 192 138 would be a newline, too
VARIABLES s, src, cnt, n, hist
vars == <<s, src, cnt, n, hist>>
Zero == [b |-> 0, l |-> 1, c |-> 1]
Init == /\ \E m \in 0..MaxLen : s \in [1..m -> Bytes]
        /\ src = <<At0(0), Null>> /\ cnt = <<Zero, Zero>> /\ n = 0 /\ hist = <<>>
\* as the code counts: by the unit just read
Bump(c, u, k) == IF u = NL THEN [b |-> c.b + k, l |-> c.l + 1, c |-> 1] ELSE [b |-> c.b + k, l |-> c.l, c |-> c.c + 1]
Log(x) == hist' = (IF Record THEN Append(hist, x) ELSE hist)
Rd(i, f(_, _), op) == LET x == src[i] y == f(s, x) IN
   /\ src' = [src EXCEPT ![i] = y]
   /\ cnt' = [cnt EXCEPT ![i] = IF y = x THEN @ ELSE Bump(@, y.units[Len(y.units)], y.pos - x.pos)]
   /\ Log(<<op, i - 1, 0>>)
Copy(i, j) == src' = [src EXCEPT ![i] = src[j]] /\ cnt' = [cnt EXCEPT ![i] = cnt[j]] /\ Log(<<2, i - 1, j - 1>>)
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED s
        /\ \E i \in 1..2 : Rd(i, ReadByte, 0) \/ Rd(i, ReadChar, 1) \/ Copy(i, 3 - i)
Spec == Init /\ [][Next]_vars
Truthful == \A i \in 1..2 : cnt[i] = [b |-> ByteCount(src[i]), l |-> LineCount(src[i]), c |-> Column(src[i])]
Within == \A i \in 1..2 : src[i].pos \in 0..Len(s)
\* read by characters alone, the units are the text's characters
Script == n = MaxOps => PrintT(<<"SCRIPT", ToString(<<s, hist>>)>>)
=============================================================================
