------------------------------- MODULE EmitTree -------------------------------
(***************************************************************************)
(* Observations of a bound tree over N values in every state, and the raw  *)
(* interval of every range of cells.                                       *)
(***************************************************************************)
EXTENDS RawAlgebra, TLC, Json
VARIABLE cur
M == INSTANCE Regions WITH K <- NCells
Init == M!Init
Next == M!Next
Spec == Init /\ [][Next]_cur
Row(x) == PrintT(ToJson(x))
B(x) == IF x THEN 1 ELSE 0
BoundCode(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
NoBound == <<-1, 0>>
ASSUME \A r \in M!Args : Row(<<4, r[1], r[2], RawOf(r)>>)
LowerOf(S) == IF S = {} THEN NoBound ELSE BoundCode(LowBound(Min(S)))
UpperOf(S) == IF S = {} THEN NoBound ELSE BoundCode(UppBound(Max(S)))
Obs == Row(<<5, M!Mask(cur), LowerOf(cur), UpperOf(cur),
             RawOf(M!Hull(cur)), ClosureSpec(RawOf(M!Hull(cur))),
             B(cur = {}), B(cur = Cells), [v \in Vals |-> B(2*v \in cur)]>>)
===============================================================================
