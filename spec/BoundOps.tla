-------------------------------- MODULE BoundOps -------------------------------
(***************************************************************************)
(* The case analyses of src/bound.rs on pairs of bounds, in the typed      *)
(* fragment Apalache reads (see Unbounded).                                *)
(***************************************************************************)
EXTENDS Cells

(* Case analysis of the code. *)
\* @type: ($bnd, $bnd) => $bnd;
LeastUnion(a, b) ==
    IF IsInf(a) \/ IsInf(b) THEN Inf
    ELSE IF IsInc(a) /\ IsExc(b) THEN (IF a[2] <= b[2] THEN a ELSE b)
    ELSE IF a[2] < b[2] THEN a ELSE b
\* @type: ($bnd, $bnd) => $bnd;
GreatestUnion(a, b) ==
    IF IsInf(a) \/ IsInf(b) THEN Inf
    ELSE IF IsInc(a) /\ IsExc(b) THEN (IF a[2] >= b[2] THEN a ELSE b)
    ELSE IF a[2] > b[2] THEN a ELSE b
\* @type: ($bnd, $bnd) => $bnd;
LeastIntersect(a, b) ==
    IF IsInf(a) THEN b ELSE IF IsInf(b) THEN a
    ELSE IF IsExc(a) /\ IsInc(b) THEN (IF a[2] <= b[2] THEN a ELSE b)
    ELSE IF a[2] < b[2] THEN a ELSE b
\* @type: ($bnd, $bnd) => $bnd;
GreatestIntersect(a, b) ==
    IF IsInf(a) THEN b ELSE IF IsInf(b) THEN a
    ELSE IF IsExc(a) /\ IsInc(b) THEN (IF a[2] >= b[2] THEN a ELSE b)
    ELSE IF a[2] > b[2] THEN a ELSE b
\* @type: ($bnd, $bnd) => Bool;
UnionAdjacent(a, b) ==
    /\ (IsInc(a) /\ IsInc(b)) \/ (IsInc(a) /\ IsExc(b)) \/ (IsExc(a) /\ IsInc(b))
    /\ a[2] = b[2]
===============================================================================
