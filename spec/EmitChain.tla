------------------------------ MODULE EmitChain -------------------------------
(***************************************************************************)
(* Tables of the interval operations over the finite chain 1..N.           *)
(***************************************************************************)
EXTENDS Chain, TLC, Json
Row(x) == PrintT(ToJson(x))
B(x) == IF x THEN 1 ELSE 0
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x[2] < y[2])
ASSUME Row(<<0, N>>)
ASSUME ChainLaws
ASSUME NormalizeOK
ASSUME IntervalOK
ASSUME \A v \in Points : Row(<<30, v, Pred(v), Succ(v)>>)
(* every raw value: its normal and denormal form and its points *)
ASSUME \A w \in AnyRaw :
    Row(<<31, w, NormalizeImpl(w), IF PointsOf(w) = {} THEN <<-1,0,0>> ELSE Denormal(PointsOf(w)),
          [v \in Points |-> B(v \in PointsOf(w))], B(WellFormed(w))>>)
(* constructors from bounds, normalized *)
BoundCode(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
ASSUME \A l \in Bounds, u \in Bounds :
    Row(<<32, BoundCode(l), BoundCode(u), Normal(PointsOf(Construct(l, u)))>>)
(* queries on an interval *)
Card(w) == Cardinality(PointsOf(w))
Lo(w) == IF PointsOf(w) = {} THEN None ELSE Min(PointsOf(w))
Hi(w) == IF PointsOf(w) = {} THEN None ELSE Max(PointsOf(w))
(* is_ : empty degenerate proper open left_open right_open half_open closed *)
(* left_closed right_closed half_closed bounded left_b right_b half_b       *)
Flags(w) == LET e == PointsOf(w) = {} IN
    <<B(e), B(Card(w) = 1), B(Card(w) > 1), B(e), 0, 0, 0, 1,
      B(~e), B(~e), 0, 1, 1, 1, 0>>
ASSUME \A w \in Ivs :
    Row(<<33, w, Lo(w), Hi(w), Flags(w), [v \in Points |-> B(v \in PointsOf(w))],
          Sorted(IvComplementSpec(w))>>)
ASSUME \A a \in Ivs, b \in Ivs :
    Row(<<34, a, b, IvIntersectSpec(a, b), B(PointsOf(a) \cap PointsOf(b) # {}), B(IvAdjacentSpec(a, b)),
          Sorted(IvUnionSpec(a, b)), Sorted(IvMinusSpec(a, b)), IvEncloseSpec(a, b), B(a = b)>>)
===============================================================================
