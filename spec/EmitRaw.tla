------------------------------- MODULE EmitRaw --------------------------------
(***************************************************************************)
(* Tables of the raw interval operations over N values, with the meaning   *)
(* given by cells; and the check that the code's algorithms agree.         *)
(***************************************************************************)
EXTENDS RawAlgebra, TLC, Json
Row(x) == PrintT(ToJson(x))
B(x) == IF x THEN 1 ELSE 0
BoundCode(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
NoBound == <<-1, 0>>
(* order-independent pieces, ascending *)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : RangeOf(x)[1] < RangeOf(y)[1])
Low(w) == IF w = Empty THEN NoBound ELSE BoundCode(RawLower(w))
Upp(w) == IF w = Empty THEN NoBound ELSE BoundCode(RawUpper(w))

ASSUME Row(<<0, N>>)
ASSUME BoundsAgree /\ BoundsLattice /\ CombinatorLaws
ASSUME UnaryAgree
ASSUME BinaryAgree
(* constructors: every pair of bounds *)
ASSUME \A l \in Bounds, u \in Bounds : Row(<<10, BoundCode(l), BoundCode(u), Construct(l, u)>>)
(* queries *)
ASSUME \A w \in Raws :
    Row(<<11, w, Low(w), Upp(w), B(w = Empty), B(w = Full), [v \in Vals |-> B(2*v \in CellsOf(w))],
          Sorted(ComplementSpec(w)), ClosureSpec(w), RangeOf(w)>>)
ASSUME \A a \in Raws, b \in Raws :
    Row(<<12, a, b, IntersectSpec(a, b), B(IntersectsSpec(a, b)), B(AdjacentRawSpec(a, b)),
          Sorted(UnionSpec(a, b)), Sorted(MinusSpec(a, b)), EncloseSpec(a, b)>>)
(* bounds *)
ASSUME \A a \in Bounds, b \in Bounds :
    Row(<<13, BoundCode(a), BoundCode(b),
          BoundCode(LeastUnionSpec(a, b)), BoundCode(LeastIntersectSpec(a, b)),
          BoundCode(GreatestUnionSpec(a, b)), BoundCode(GreatestIntersectSpec(a, b))>>)
ASSUME \A b \in Bounds :
    Row(<<15, BoundCode(b), B(Finite(b)), B(IsInc(b)), B(IsExc(b)), PointOf(b),
          [d \in Vals |-> <<d, UnwrapOr(b, d), BoundCode(WithPoint(b, d)), MapOr(b, d, Flip), BoundCode(Made(d))>>],
          BoundCode(Map(b, Flip))>>)
===============================================================================
