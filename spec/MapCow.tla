------------------------------- MODULE MapCow -------------------------------
(* C04: the storage design of CowMap: a reference to a shared body which is      *)
(* copied before the first change when there is any other holder.  TLC checks     *)
(* every storage-level step against the abstract action and that no shared body   *)
(* is ever written.                                                               *)
EXTENDS SeqOps, FiniteSets, TLC
CONSTANTS Reg, Key, Val, Bodies, Emit
VARIABLES data, at, hist
vars == <<data, at>>
view == vars
Empty == << >>
Abs(r) == data[at[r]]
AbsRegs == [r \in Reg |-> Abs(r)]
A == INSTANCE MapSpec WITH regs <- AbsRegs
Holders(b) == {r \in Reg : at[r] = b}
Free == {b \in Bodies : Holders(b) = {}}
Init == /\ at \in {f \in [Reg -> Bodies] : \A q, r \in Reg : q # r => f[q] # f[r]}
        /\ data = [b \in Bodies |-> Empty] /\ hist = << >>
PutState(d, a) == at' = a /\ data' = [b \in Bodies |-> IF \E r \in Reg : a[r] = b THEN d[b] ELSE Empty]
Write(r, m) == IF Holders(at[r]) = {r} THEN PutState([data EXCEPT ![at[r]] = m], at)
               ELSE LET b == CHOOSE x \in Free : TRUE IN PutState([data EXCEPT ![b] = m], [at EXCEPT ![r] = b])
Did(op, act) == /\ Assert(act, <<"storage step is not the abstract step", op>>)
                /\ hist' = Append(hist, op)
                /\ (Emit => PrintT(<<"SCRIPT", ToString(hist')>>))
Next == \E r \in Reg :
  \/ Write(r, Empty) /\ Did(<<"clear", r>>, A!Clear(r))
  \/ \E s \in Reg : PutState(data, [at EXCEPT ![r] = at[s]]) /\ Did(<<"copy", r, s>>, A!Copy(r, s))
  \/ \E k \in Key, v \in Val : Write(r, A!With(Abs(r), <<k>>, v)) /\ Did(<<"put", r, k, v>>, A!Put(r, <<k>>, v))
  \/ \E k \in Key, v \in Val : Write(r, A!Add(Abs(r), <<k>>, v)) /\ Did(<<"insert", r, k, v>>, A!Insert(r, <<k>>, v))
  \/ \E k \in Key : Write(r, A!Without(Abs(r), <<k>>)) /\ Did(<<"remove", r, k>>, A!Remove(r, <<k>>))
Spec == Init /\ [][Next]_<<vars, hist>>
NoSharedWrite == [][\A b \in Bodies : Cardinality(Holders(b)) > 1 /\ Cardinality(Holders(b)') >= 1 => data'[b] = data[b]]_vars
Isolation == [][\E r \in Reg : \A q \in Reg \ {r} : Abs(q)' = Abs(q)]_vars
=============================================================================
