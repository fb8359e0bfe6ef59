------------------------------- MODULE PtrSpec -------------------------------
(* C18: guarded pointers.  A pointer of kind k over a text s (a sequence of
   bytes, with a NUL after it) is [org, pos], offsets from 0.
   Kinds: "U" unguarded, "N" guarded at the NUL, "G" at its origin too, by bytes;
          "NU", "GU" the same by UTF-8 characters. *)
EXTENDS CodecSpec
Utf(k) == k \in {"NU", "GU"}
Anchored(k) == k \in {"G", "GU"}
Base(k, p) == IF Anchored(k) THEN p.org ELSE 0
\* one character on or back, within bounds
On(k, s, pos) == IF pos >= Len(s) THEN pos ELSE IF Utf(k) THEN pos + Step8(s, pos + 1).n ELSE pos + 1
Back(k, s, base, pos) == IF pos <= base THEN pos
                         ELSE IF Utf(k) THEN base + BackTo(SubSeq(s, base + 1, Len(s)), pos - base + 1) - 1 ELSE pos - 1
RECURSIVE Move(_, _, _, _, _)
Move(k, s, base, pos, i) == IF i = 0 THEN pos
                            ELSE IF i > 0 THEN (IF pos >= Len(s) THEN pos ELSE Move(k, s, base, On(k, s, pos), i - 1))
                            ELSE IF pos <= base THEN pos ELSE Move(k, s, base, Back(k, s, base, pos), i + 1)
\* the same without going step by step over the text again and again (PtrModel checks that it is)
RECURSIVE Before(_, _, _, _)
Before(s, i, lim, out) == IF i >= lim \/ i > Len(s) THEN out ELSE Before(s, i + Step8(s, i).n, lim, Append(out, i))
Far(k, s, base, pos, i) == IF i >= 0 THEN Move(k, s, base, pos, i)
                           ELSE IF pos <= base THEN pos
                           ELSE IF ~Utf(k) THEN (IF i < base - pos THEN base ELSE pos + i)
                           ELSE LET b == Before(SubSeq(s, base + 1, Len(s)), 1, pos - base + 1, <<>>) IN
                                IF i <= 0 - Len(b) THEN base ELSE base + b[Len(b) + i + 1] - 1
\* which moves a kind leaves to the caller
Allowed(k, s, p, i) == /\ (k = "U" => p.pos + i \in 0..Len(s))
                       /\ (~Anchored(k) /\ i < 0 => p.pos >= (IF Utf(k) THEN 6 ELSE 1) * (0 - i))
Deref(k, s, pos) == IF pos >= Len(s) THEN <<0, 0>> ELSE IF Utf(k) THEN Step8(s, pos + 1).c ELSE <<0, s[pos + 1]>>
Moved(k, s, p, i) == [p EXCEPT !.pos = Far(k, s, Base(k, p), p.pos, i)]
InText(k, s, p) == p.pos \in Base(k, p)..Len(s)
=============================================================================
