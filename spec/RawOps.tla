--------------------------------- MODULE RawOps --------------------------------
(***************************************************************************)
(* The algorithms of src/raw_interval.rs on pairs of raw intervals, in the *)
(* typed fragment Apalache reads (see Unbounded).                          *)
(***************************************************************************)
EXTENDS BoundOps

Empty == MkRaw(kEmpty, 0, 0)
Full  == MkRaw(kFull, 0, 0)
\* @typeAlias: pair = <<$raw, $raw>>;
RawOpsTypes == TRUE

(* Algorithms of the code. *)
\* @type: ($raw, Int) => Bool;
ContainsImpl(w, v) ==
    CASE w[1] = kEmpty -> FALSE
      [] w[1] = kPoint -> v = w[2]
      [] w[1] = kOpen -> v > w[2] /\ v < w[3]
      [] w[1] = kLeftOpen -> v > w[2] /\ v <= w[3]
      [] w[1] = kRightOpen -> v >= w[2] /\ v < w[3]
      [] w[1] = kClosed -> v >= w[2] /\ v <= w[3]
      [] w[1] = kUpTo -> v < w[3]
      [] w[1] = kUpFrom -> v > w[2]
      [] w[1] = kTo -> v <= w[3]
      [] w[1] = kFrom -> v >= w[2]
      [] w[1] = kFull -> TRUE

(* Up to two pieces, in the order the code yields them, with Empty for     *)
(* those that are not there.                                               *)
\* @type: ($raw) => $pair;
ComplementParts(w) ==
    CASE w[1] = kEmpty -> <<Full, Empty>>
      [] w[1] = kPoint -> <<MkRaw(kUpTo, 0, w[2]), MkRaw(kUpFrom, w[2], 0)>>
      [] w[1] = kOpen -> <<MkRaw(kTo, 0, w[2]), MkRaw(kFrom, w[3], 0)>>
      [] w[1] = kLeftOpen -> <<MkRaw(kTo, 0, w[2]), MkRaw(kUpFrom, w[3], 0)>>
      [] w[1] = kRightOpen -> <<MkRaw(kUpTo, 0, w[2]), MkRaw(kFrom, w[3], 0)>>
      [] w[1] = kClosed -> <<MkRaw(kUpTo, 0, w[2]), MkRaw(kUpFrom, w[3], 0)>>
      [] w[1] = kUpTo -> <<MkRaw(kFrom, w[3], 0), Empty>>
      [] w[1] = kUpFrom -> <<MkRaw(kTo, 0, w[2]), Empty>>
      [] w[1] = kTo -> <<MkRaw(kUpFrom, w[3], 0), Empty>>
      [] w[1] = kFrom -> <<MkRaw(kUpTo, 0, w[2]), Empty>>
      [] w[1] = kFull -> <<Empty, Empty>>

\* @type: ($raw, $raw) => $raw;
IntersectImpl(a, b) ==
    IF a = Empty \/ b = Empty THEN Empty
    ELSE LET lb == GreatestIntersect(RawLower(a), RawLower(b))
             ub == LeastIntersect(RawUpper(a), RawUpper(b))
         IN  IF lb[2] = ub[2] /\ ((IsInc(lb) /\ IsExc(ub)) \/ (IsExc(lb) /\ IsInc(ub)))
             THEN Empty ELSE Construct(lb, ub)

\* @type: ($raw, $raw) => $raw;
EncloseImpl(a, b) ==
    IF a = Empty THEN b ELSE IF b = Empty THEN a
    ELSE Construct(LeastUnion(RawLower(a), RawLower(b)), GreatestUnion(RawUpper(a), RawUpper(b)))

\* @type: ($raw, $raw) => Bool;
AdjacentImpl(a, b) ==
    /\ a # Empty /\ b # Empty
    /\ \/ UnionAdjacent(RawLower(a), RawUpper(b))
       \/ UnionAdjacent(RawLower(b), RawUpper(a))

\* @type: ($raw, $raw) => $pair;
UnionParts(a, b) ==
    IF a = Empty THEN <<b, Empty>>
    ELSE IF b = Empty THEN <<a, Empty>>
    ELSE IF IntersectImpl(a, b) # Empty \/ AdjacentImpl(a, b) THEN <<EncloseImpl(a, b), Empty>>
    ELSE <<a, b>>

\* @type: ($raw, $raw) => $pair;
MinusParts(a, b) ==
    LET c == ComplementParts(b) IN <<IntersectImpl(a, c[1]), IntersectImpl(a, c[2])>>

\* @type: ($raw) => $raw;
ClosureImpl(w) ==
    CASE w[1] \in {kOpen, kLeftOpen, kRightOpen} -> MkRaw(kClosed, w[2], w[3])
      [] w[1] = kUpTo   -> MkRaw(kTo, 0, w[3])
      [] w[1] = kUpFrom -> MkRaw(kFrom, w[2], 0)
      [] OTHER -> w
===============================================================================
