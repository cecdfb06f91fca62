----------------------------- MODULE BoundMachine -----------------------------
(***************************************************************************)
(* Folding bounds: four accumulators take the least and greatest union and *)
(* intersect of the same sequence of bounds; each must admit exactly what  *)
(* the whole sequence admits, in whatever order it came.                   *)
(***************************************************************************)
EXTENDS BoundAlgebra
VARIABLES lu, gu, li, gi, seen
vars == <<lu, gu, li, gi, seen>>
Init == \E b \in Bounds : lu = b /\ gu = b /\ li = b /\ gi = b /\ seen = {b}
Fold(b) ==
    /\ lu' = LeastUnion(lu, b) /\ gu' = GreatestUnion(gu, b)
    /\ li' = LeastIntersect(li, b) /\ gi' = GreatestIntersect(gi, b)
    /\ seen' = seen \cup {b}
(* combinators: the same function on every point *)
Reverse ==      \* an order-reversing map turns least into greatest
    /\ lu' = Map(gu, Flip) /\ gu' = Map(lu, Flip)
    /\ li' = Map(gi, Flip) /\ gi' = Map(li, Flip)
    /\ seen' = {Map(b, Flip) : b \in seen}
Next == (\E b \in Bounds : Fold(b)) \/ Reverse
Spec == Init /\ [][Next]_vars

AdmitOK ==
    /\ AdmitsLow(lu) = UNION {AdmitsLow(b) : b \in seen}
    /\ AdmitsUpp(gu) = UNION {AdmitsUpp(b) : b \in seen}
    /\ \A c \in Cells : c \in AdmitsUpp(li) <=> \A b \in seen : c \in AdmitsUpp(b)
    /\ \A c \in Cells : c \in AdmitsLow(gi) <=> \A b \in seen : c \in AdmitsLow(b)
Chosen == {lu, gu, li, gi} \subseteq seen
===============================================================================
