------------------------------ MODULE ErrModel ------------------------------
(* C19: the numbering scheme at full width: the parts are given back, different    *)
(* pairs have different representations, none is success, the sign is negative.    *)
EXTENDS ErrSpec, FiniteSets, TLC

Edge == {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 12288, 16382, 16383}
EdgeSets == Edge \cup {16384, 32767, 32768, 49152, 65534, 65535}
VARIABLE a, b
MInit == a \in EdgeSets \X Edge /\ b \in {<<0, 0>>, <<65535, 16383>>, <<1, 0>>, <<8192, 1>>, <<32768, 16383>>} /\ Init
MNext == \/ a' = b /\ b' = a /\ Skip
         \/ \E r \in Reg : New(r, a[1], a[2], 1, 2) /\ UNCHANGED <<a, b>>
         \/ \E r, s \in Reg : Copy(r, s) /\ UNCHANGED <<a, b>>
MSpec == MInit /\ [][MNext]_<<a, b, errs>>
Parts == LET n == Rep(a[1], a[2]) IN SetOf(n) = a[1] /\ MsgOf(n) = a[2] /\ n < 0
Injective == a # b => Rep(a[1], a[2]) # Rep(b[1], b[2])
Kept == \A r \in Reg : errs[r].num # 0 => SetOf(errs[r].num) = errs[r].set /\ MsgOf(errs[r].num) = errs[r].msg
=============================================================================
