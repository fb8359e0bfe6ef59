------------------------------- MODULE PtrModel -------------------------------
(* Every sequence of moves on every text of Bytes up to MaxLen: the guarantees of
   PtrSpec.  Behaviours are replayed on the real classes. *)
EXTENDS PtrSpec, TLC
CONSTANTS MaxLen, MaxMoves, Steps, Record
StepSet == (0 - Steps)..Steps
Bytes == {65, 128, 195}
Kinds == {"U", "N", "G", "NU", "GU"}
Pre == <<66, 66, 66, 66, 66, 66>>     \* enough for moves back which are not guarded
VARIABLES kind, s, p, n, hist, was
vars == <<kind, s, p, n, hist, was>>
Init == /\ kind \in Kinds
        /\ \E m \in 0..MaxLen : \E t \in [1..m -> Bytes] : s = Pre \o t
        /\ \E o \in 6..Len(s) : p = [org |-> o, pos |-> o]
        /\ n = 0 /\ hist = <<>> /\ was = p.pos
Go(i, how) == /\ n < MaxMoves /\ Allowed(kind, s, p, i) /\ p' = Moved(kind, s, p, i) /\ was' = p.pos /\ n' = n + 1
              /\ hist' = (IF Record THEN Append(hist, <<how, i>>) ELSE hist) /\ UNCHANGED <<kind, s>>
Next == \E i \in StepSet : Go(i, 0) \/ (i \in {-1, 1} /\ Record /\ Go(i, 1))
Spec == Init /\ [][Next]_vars
FarIsMove == \A i \in StepSet : Allowed(kind, s, p, i) => Far(kind, s, Base(kind, p), p.pos, i) = Move(kind, s, Base(kind, p), p.pos, i)
Inside == InText(kind, s, p)
\* from a boundary, a move that is not cut short can be undone
Undo == \A i \in 1..Steps : LET q == Moved(kind, s, p, i) IN
          q.pos < Len(s) /\ (Utf(kind) => p.pos + 1 \in Bounds(s, 1)) /\ Allowed(kind, s, p, i) /\ Allowed(kind, s, q, 0 - i)
            => Moved(kind, s, q, 0 - i).pos = p.pos
\* by bytes, clamped
Clamp == ~Utf(kind) => \A i \in StepSet : Allowed(kind, s, p, i) =>
          Moved(kind, s, p, i).pos = (LET x == p.pos + i IN IF x > Len(s) THEN Len(s) ELSE IF x < Base(kind, p) THEN Base(kind, p) ELSE x)
Script == n = MaxMoves => PrintT(<<"SCRIPT", ToString(<<IF kind = "U" THEN 0 ELSE IF kind = "N" THEN 1 ELSE IF kind = "G" THEN 2 ELSE IF kind = "NU" THEN 3 ELSE 4, s, p.org, hist>>)>>)
=============================================================================
