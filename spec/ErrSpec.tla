------------------------------ MODULE ErrSpec -------------------------------
(* C19: error numbers (a 16-bit set and a 14-bit message, the top two bits of    *)
(* 32 always set) and errors (a number with its default text and parameters).     *)
EXTENDS Integers, Sequences
CONSTANT Reg
VARIABLES errs                 \* errs[r] = [set, msg, text, par]; text and par 0 when absent
Sets == 0..65535
Msgs == 0..16383
\* the sign bit and the next bit set: -2^31 + 2^30
Rep(s, m) == -1073741824 + s * 16384 + m
SetOf(n) == (n + 1073741824) \div 16384
MsgOf(n) == (n + 1073741824) % 16384
None == [set |-> 0, msg |-> 0, text |-> 0, par |-> 0, num |-> 0]
Init == errs = [r \in Reg |-> None]
Upd(r, e) == errs' = [errs EXCEPT ![r] = e]
Skip == UNCHANGED errs
New(r, s, m, t, p) == Upd(r, [set |-> s, msg |-> m, text |-> t, par |-> p, num |-> Rep(s, m)])
Copy(r, s) == Upd(r, errs[s])
Drop(r) == Upd(r, None)
=============================================================================
