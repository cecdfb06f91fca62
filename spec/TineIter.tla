------------------------------- MODULE TineIter -------------------------------
(***************************************************************************)
(* The interval iterators of a bound tree (src/tine_tree.rs, Iter and      *)
(* IntoIter): a double-ended cursor over the markers, plus a saved marker  *)
(* per end, because an excluded point is the upper bound of one interval   *)
(* and the lower bound of the next.  Checked to refine Cursor on every     *)
(* tree and under every interleaving of the two ends.                      *)
(***************************************************************************)
EXTENDS TineTree
VARIABLES tree, rest, savedL, savedU, res, ok, n, f, b, out
vars == <<tree, rest, savedL, savedU, res, ok, n, f, b, out>>
C == INSTANCE Cursor

NoPlace == -1
NoItem  == <<-1, 0, 0>>

Init ==
    /\ \E S \in SUBSET Cells : tree = CanonTree(S)
    /\ rest = Used(tree) /\ savedL = NoPlace /\ savedU = NoPlace
    /\ res = NoItem /\ ok = TRUE
    /\ C!Start(Len(Intervals(tree)))

Between(l, u) ==
    IF IsLower(tree[l]) /\ IsUpper(tree[u]) THEN Construct(LowBnd(l, tree[l]), UppBnd(u, tree[u])) ELSE NoItem

Fail == ok' = FALSE /\ res' = NoItem /\ UNCHANGED <<rest, savedL, savedU>>

DoNext ==
    LET fromSaved == savedL # NoPlace
        has   == fromSaved \/ rest # {}
        lower == IF fromSaved THEN savedL ELSE Min(rest)
        rest1 == IF fromSaved THEN rest ELSE rest \ {lower}
    IN  IF ~has THEN res' = NoItem /\ UNCHANGED <<rest, savedL, savedU, ok>>
        ELSE IF tree[lower] = "PI"
        THEN res' = <<kPoint, lower, lower>> /\ rest' = rest1 /\ savedL' = NoPlace /\ UNCHANGED <<savedU, ok>>
        ELSE IF rest1 # {}
        THEN LET upper == Min(rest1) IN
             /\ rest' = rest1 \ {upper}
             /\ savedL' = IF tree[upper] = "PE" THEN upper ELSE NoPlace
             /\ res' = Between(lower, upper) /\ ok' = (res' # NoItem) /\ UNCHANGED savedU
        ELSE IF savedU # NoPlace
        THEN /\ rest' = rest1 /\ savedL' = NoPlace /\ savedU' = NoPlace
             /\ res' = Between(lower, savedU) /\ ok' = (res' # NoItem)
        ELSE Fail           \* "interval is not partial"

DoBack ==
    LET fromSaved == savedU # NoPlace
        has   == fromSaved \/ rest # {}
        upper == IF fromSaved THEN savedU ELSE Max(rest)
        rest1 == IF fromSaved THEN rest ELSE rest \ {upper}
    IN  IF ~has THEN res' = NoItem /\ UNCHANGED <<rest, savedL, savedU, ok>>
        ELSE IF tree[upper] = "PI"
        THEN res' = <<kPoint, upper, upper>> /\ rest' = rest1 /\ savedU' = NoPlace /\ UNCHANGED <<savedL, ok>>
        ELSE IF rest1 # {}
        THEN LET lower == Max(rest1) IN
             /\ rest' = rest1 \ {lower}
             /\ savedU' = IF tree[lower] = "PE" THEN lower ELSE NoPlace
             /\ res' = Between(lower, upper) /\ ok' = (res' # NoItem) /\ UNCHANGED savedL
        ELSE IF savedL # NoPlace
        THEN /\ rest' = rest1 /\ savedL' = NoPlace /\ savedU' = NoPlace
             /\ res' = Between(savedL, upper) /\ ok' = (res' # NoItem)
        ELSE Fail

Next == ok /\ UNCHANGED tree /\ ((DoNext /\ C!StepNext) \/ (DoBack /\ C!StepBack))
Spec == Init /\ [][Next]_vars

NoPanic == ok
Refines == res = IF out = 0 THEN NoItem ELSE Intervals(tree)[out]
CursorOK == C!CursorOK
Fused == C!Fused
===============================================================================
