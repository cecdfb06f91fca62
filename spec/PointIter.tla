------------------------------- MODULE PointIter ------------------------------
(***************************************************************************)
(* The point iterators.  An interval's iterator shrinks its interval by    *)
(* the point it returns (src/interval.rs, Iter); a selection's iterator    *)
(* keeps one interval iterator per end and refills it from the remaining   *)
(* intervals, falling back to the other end's when none remain             *)
(* (src/selection.rs, Iter and IntoIter).  Checked to refine Cursor.       *)
(***************************************************************************)
EXTENDS Chain
VARIABLES sel, runs, front, back, res, n, f, b, out
vars == <<sel, runs, front, back, res, n, f, b, out>>
C == INSTANCE Cursor

Ascending(S) == SetToSortSeq(S, <)
IvMin(i) == i[2]
IvMax(i) == i[3]

(* One step of an interval's iterator: [item, rest]. *)
ShrinkBy(i, p) == LET m == IvMinusImpl(i, <<kPoint, p, p>>) IN IF m = <<>> THEN Empty ELSE m[1]
TakeMin(i) == IF i = Empty THEN [item |-> None, rest |-> Empty]
              ELSE [item |-> IvMin(i), rest |-> ShrinkBy(i, IvMin(i))]
TakeMax(i) == IF i = Empty THEN [item |-> None, rest |-> Empty]
              ELSE [item |-> IvMax(i), rest |-> ShrinkBy(i, IvMax(i))]

Init ==
    /\ sel \in SUBSET Points
    /\ runs = [i \in 1..Len(P!Runs(sel)) |-> Normal(P!Runs(sel)[i][1]..P!Runs(sel)[i][2])]
    /\ front = Empty /\ back = Empty /\ res = None
    /\ C!Start(Cardinality(sel))

DoNext ==
    IF front # Empty
    THEN LET r == TakeMin(front) IN res' = r.item /\ front' = r.rest /\ UNCHANGED <<runs, back>>
    ELSE IF runs # <<>>
    THEN LET r == TakeMin(Head(runs)) IN
         res' = r.item /\ front' = r.rest /\ runs' = Tail(runs) /\ UNCHANGED back
    ELSE LET r == TakeMin(back) IN res' = r.item /\ back' = r.rest /\ UNCHANGED <<runs, front>>

DoBack ==
    IF back # Empty
    THEN LET r == TakeMax(back) IN res' = r.item /\ back' = r.rest /\ UNCHANGED <<runs, front>>
    ELSE IF runs # <<>>
    THEN LET r == TakeMax(Last(runs)) IN
         res' = r.item /\ back' = r.rest /\ runs' = Front(runs) /\ UNCHANGED front
    ELSE LET r == TakeMax(front) IN res' = r.item /\ front' = r.rest /\ UNCHANGED <<runs, back>>

Next == UNCHANGED sel /\ ((DoNext /\ C!StepNext) \/ (DoBack /\ C!StepBack))
Spec == Init /\ [][Next]_vars

Refines == res = IF out = 0 THEN None ELSE Ascending(sel)[out]
CursorOK == C!CursorOK
Fused == C!Fused
===============================================================================
