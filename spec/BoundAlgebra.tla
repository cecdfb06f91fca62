----------------------------- MODULE BoundAlgebra -----------------------------
(***************************************************************************)
(* Bound::{least,greatest}_{union,intersect} and is_union_adjacent_to.     *)
(* Their meaning; TLC checks that the case analysis in BoundOps agrees for *)
(* all pairs of bounds.                                                    *)
(***************************************************************************)
EXTENDS AllRaws, BoundOps

(* Meaning.  As a lower bound b admits the cells from LowCell(b) on, as an *)
(* upper bound those up to UppCell(b).                                     *)
AdmitsLow(b) == LowCell(b)..NCells
AdmitsUpp(b) == 1..UppCell(b)

LeastUnionSpec(a, b)       == CHOOSE c \in {a, b} : AdmitsLow(c) = AdmitsLow(a) \cup AdmitsLow(b)
GreatestUnionSpec(a, b)    == CHOOSE c \in {a, b} : AdmitsUpp(c) = AdmitsUpp(a) \cup AdmitsUpp(b)
LeastIntersectSpec(a, b)   == CHOOSE c \in {a, b} : AdmitsUpp(c) = AdmitsUpp(a) \cap AdmitsUpp(b)
GreatestIntersectSpec(a,b) == CHOOSE c \in {a, b} : AdmitsLow(c) = AdmitsLow(a) \cap AdmitsLow(b)

(* Opposite bounds touch when they share their point and one includes it.  *)
AdjacentSpec(a, b) == ~IsInf(a) /\ ~IsInf(b) /\ a[2] = b[2] /\ (IsInc(a) \/ IsInc(b))

BoundsAgree ==
    \A a \in Bounds, b \in Bounds :
        /\ LeastUnion(a, b) = LeastUnionSpec(a, b)
        /\ GreatestUnion(a, b) = GreatestUnionSpec(a, b)
        /\ LeastIntersect(a, b) = LeastIntersectSpec(a, b)
        /\ GreatestIntersect(a, b) = GreatestIntersectSpec(a, b)
        /\ UnionAdjacent(a, b) <=> AdjacentSpec(a, b)

(* The lattice laws that make the operators usable for folding. *)
BoundsLattice ==
    \A a \in Bounds, b \in Bounds :
        /\ LeastUnion(a, b) = LeastUnion(b, a)
        /\ GreatestUnion(a, b) = GreatestUnion(b, a)
        /\ LeastIntersect(a, b) = LeastIntersect(b, a)
        /\ GreatestIntersect(a, b) = GreatestIntersect(b, a)
        /\ LeastUnion(a, a) = a /\ GreatestUnion(a, a) = a
        /\ LeastIntersect(a, a) = a /\ GreatestIntersect(a, a) = a
        /\ \A c \in Bounds :
             /\ LeastUnion(a, LeastUnion(b, c)) = LeastUnion(LeastUnion(a, b), c)
             /\ GreatestUnion(a, GreatestUnion(b, c)) = GreatestUnion(GreatestUnion(a, b), c)
             /\ LeastIntersect(a, LeastIntersect(b, c)) = LeastIntersect(LeastIntersect(a, b), c)
             /\ GreatestIntersect(a, GreatestIntersect(b, c)) = GreatestIntersect(GreatestIntersect(a, b), c)
(* Combinators.  A bound is a kind and, unless infinite, one point; the     *)
(* combinators keep the kind and touch only the point.                      *)
Finite(b)         == ~IsInf(b)
PointOf(b)        == b[2]                 \* 0: none
WithPoint(b, v)   == IF IsInf(b) THEN Inf ELSE <<b[1], v>>
Map(b, f(_))      == IF IsInf(b) THEN Inf ELSE <<b[1], f(b[2])>>
UnwrapOr(b, d)    == IF IsInf(b) THEN d ELSE b[2]
MapOr(b, d, f(_)) == IF IsInf(b) THEN d ELSE f(b[2])
Flip(v)           == N + 1 - v            \* the function mapped in the table
(* A bound made of a value, or of the default value of the type, includes   *)
(* it.                                                                      *)
Made(v)           == Inc(v)

CombinatorLaws ==
    \A b \in Bounds :
        /\ Map(b, LAMBDA v : v) = b
        /\ Map(Map(b, Flip), Flip) = b
        /\ Finite(b) <=> (IsInc(b) \/ IsExc(b))
        /\ Finite(b) => WithPoint(b, PointOf(b)) = b
        /\ \A d \in Vals :
             /\ WithPoint(b, d)[1] = b[1]
             /\ Finite(b) => PointOf(WithPoint(b, d)) = d /\ UnwrapOr(b, d) = PointOf(b)
             /\ MapOr(b, d, Flip) = UnwrapOr(Map(b, Flip), d)
             /\ Made(d) \in Bounds /\ IsInc(Made(d)) /\ PointOf(Made(d)) = d
===============================================================================
