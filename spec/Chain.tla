-------------------------------- MODULE Chain ---------------------------------
(***************************************************************************)
(* Intervals over a finite type: src/normalize.rs and src/interval.rs.     *)
(* The type is the chain 1..N; pred and succ are partial at the ends.  An  *)
(* interval is its set of consecutive points, kept in normal form: empty,  *)
(* one point, or closed.                                                   *)
(***************************************************************************)
EXTENDS TineTree, ChainOps

Points == Vals

ChainLaws ==
    \A v \in Points :
        /\ Succ(v) # None => Pred(Succ(v)) = v /\ Succ(v) > v
        /\ Pred(v) # None => Succ(Pred(v)) = v /\ Pred(v) < v
        /\ (Succ(v) = None) <=> (v = MAXP)
        /\ (Pred(v) = None) <=> (v = MINP)

(* Meaning: the points of any raw value, well formed or not. *)
PointsOf(w) == {v \in Points : ContainsImpl(w, v)}
Normal(P) ==            \* the normal form of a set of consecutive points
    IF P = {} THEN Empty
    ELSE IF Cardinality(P) = 1 THEN <<kPoint, Min(P), Min(P)>>
    ELSE <<kClosed, Min(P), Max(P)>>
Denormal(P) ==          \* the form without inclusive bounds
    LET l == Pred(Min(P))  r == Succ(Max(P)) IN
    CASE l # None /\ r # None -> <<kOpen, l, r>>
      [] l # None /\ r = None -> <<kUpFrom, l, 0>>
      [] l = None /\ r # None -> <<kUpTo, 0, r>>
      [] l = None /\ r = None -> Full
Ivs == {Normal({})} \cup {Normal(l..r) : l \in Points, r \in Points}

NormalizeOK ==
    \A w \in AnyRaw :
        /\ PointsOf(NormalizeImpl(w)) = PointsOf(w)
        /\ NormalizeImpl(w) = Normal(PointsOf(w))
        /\ PointsOf(DenormalizeImpl(w)) = PointsOf(w)
        /\ PointsOf(w) # {} =>
             /\ DenormalizeImpl(w) = Denormal(PointsOf(w))
             /\ DenormalizeImpl(DenormalizeImpl(w)) = DenormalizeImpl(w)
             /\ NormalizeImpl(DenormalizeImpl(w)) = NormalizeImpl(w)

-------------------------------------------------------------------------------
(* Interval: meaning of the operations on sets of points. *)
P == INSTANCE Regions WITH K <- N, cur <- {}
IvPieces(S) == {Normal(Span) : Span \in {r[1]..r[2] : r \in Range(P!Runs(S))}}

IvIntersectSpec(a, b)  == Normal(PointsOf(a) \cap PointsOf(b))
IvUnionSpec(a, b)      == IvPieces(PointsOf(a) \cup PointsOf(b))
IvMinusSpec(a, b)      == IvPieces(PointsOf(a) \ PointsOf(b))
IvComplementSpec(a)    == IvPieces(Points \ PointsOf(a))
IvEncloseSpec(a, b)    == LET S == PointsOf(a) \cup PointsOf(b) IN
                          IF S = {} THEN Empty ELSE Normal(Min(S)..Max(S))
IvAdjacentSpec(a, b)   ==
    /\ PointsOf(a) # {} /\ PointsOf(b) # {}
    /\ \/ Min(PointsOf(a)) = Max(PointsOf(b))
       \/ Max(PointsOf(a)) = Min(PointsOf(b))

(* The code: raw operations, renormalized. *)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
NotEmpty(x) == x # Empty
IvIntersectImpl(a, b)  == NormalizeImpl(IntersectImpl(a, b))
IvUnionImpl(a, b)      == MapSeq(NormalizeImpl, UnionImpl(DenormalizeImpl(a), DenormalizeImpl(b)))
IvMinusImpl(a, b)      == MapSeq(NormalizeImpl, MinusImpl(a, b))
IvComplementImpl(a)    == SelectSeq(MapSeq(NormalizeImpl, ComplementImpl(a)), NotEmpty)
IvEncloseImpl(a, b)    == NormalizeImpl(EncloseImpl(a, b))

IntervalOK ==
    \A a \in Ivs :
        /\ IsPieces(IvComplementImpl(a), IvComplementSpec(a))
        /\ NormalizeImpl(ClosureImpl(a)) = a
        /\ \A b \in Ivs :
            /\ IvIntersectImpl(a, b) = IvIntersectSpec(a, b)
            /\ (IntersectImpl(a, b) # Empty) <=> PointsOf(a) \cap PointsOf(b) # {}
            /\ AdjacentImpl(a, b) <=> IvAdjacentSpec(a, b)
            /\ IsPieces(IvUnionImpl(a, b), IvUnionSpec(a, b))
            /\ IsPieces(IvMinusImpl(a, b), IvMinusSpec(a, b))
            /\ IvEncloseImpl(a, b) = IvEncloseSpec(a, b)

-------------------------------------------------------------------------------
(* Selection: a tree over denormalized intervals (src/selection.rs). *)
Renormalized(t) ==
    FoldRaw(UnionRaw, NoTree, MapSeq(LAMBDA w : DenormalizeImpl(NormalizeImpl(w)), Intervals(t)))
Then(r) == IF r.ok THEN Renormalized(r.t) ELSE r

SelOfInterval(i)      == Ok(TreeOfRaw(DenormalizeImpl(i)))
SelUnionIn(t, i)      == UnionRaw(t, DenormalizeImpl(i))
SelIntersectIn(t, i)  == Then(IntersectRaw(t, DenormalizeImpl(i)))
SelMinusIn(t, i)      == Then(MinusRaw(t, DenormalizeImpl(i)))
SelComplement(t)      == Then(ComplementTree(t))
SelUnion(a, b)        == UnionTree(a, b)
SelIntersect(a, b)    == Then(IntersectTree(a, b))
SelMinus(a, b)        == Then(MinusTree(a, b))
SelIntervals(t)       == MapSeq(NormalizeImpl, Intervals(t))
SelContains(t, v)     == ContainsPoint(t, v)
SelEnclose(t)         == NormalizeImpl(EncloseTree(t))
SelInfimum(t)         == IF Used(t) = {} \/ t[0] # "no" THEN None ELSE Min(Used(t))
SelSupremum(t)        == IF Used(t) = {} \/ t[N+1] # "no" THEN None ELSE Max(Used(t))

(* The canonical tree of a set of points. *)
SelCanon(S) ==
    FoldRaw(UnionRaw, NoTree, [i \in 1..Len(P!Runs(S)) |-> Denormal(P!Runs(S)[i][1]..P!Runs(S)[i][2])]).t
===============================================================================
