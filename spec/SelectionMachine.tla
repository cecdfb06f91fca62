--------------------------- MODULE SelectionMachine ---------------------------
(***************************************************************************)
(* Every history of a selection over a finite type.  The implementation    *)
(* (a bound tree of denormalized intervals) and the abstract set of points *)
(* take every step together.                                               *)
(***************************************************************************)
EXTENDS Chain
VARIABLES tree, ok, abs
vars == <<tree, ok, abs>>
Abstract == INSTANCE Regions WITH K <- N, cur <- abs

PRange(i) == IF i = Empty THEN <<1, 0>> ELSE <<i[2], i[3]>>

Init == tree = NoTree /\ ok = TRUE /\ Abstract!Init
Become(r) == tree' = r.t /\ ok' = r.ok
DoUnion(i)     == Become(SelUnionIn(tree, i))     /\ Abstract!UnionStep(PRange(i))
DoIntersect(i) == Become(SelIntersectIn(tree, i)) /\ Abstract!IntersectStep(PRange(i))
DoMinus(i)     == Become(SelMinusIn(tree, i))     /\ Abstract!MinusStep(PRange(i))
DoReset(i)     == Become(SelOfInterval(i))        /\ Abstract!ResetStep(PRange(i))
DoComplement   == Become(SelComplement(tree))     /\ Abstract!ComplementStep
DoReload       == UNCHANGED <<tree, ok>>          /\ Abstract!ReloadStep
Next == ok /\ (\/ \E i \in Ivs : DoUnion(i) \/ DoIntersect(i) \/ DoMinus(i) \/ DoReset(i)
               \/ DoComplement \/ DoReload)
Spec == Init /\ [][Next]_vars

NoPanic   == ok
Canonical == tree = SelCanon(abs)
DecompositionOK ==
    LET runs == P!Runs(abs) IN
    SelIntervals(tree) = [i \in 1..Len(runs) |-> Normal(runs[i][1]..runs[i][2])]
QueriesOK ==
    /\ \A v \in Points : SelContains(tree, v) <=> v \in abs
    /\ SelEnclose(tree) = (IF abs = {} THEN Empty ELSE Normal(Min(abs)..Max(abs)))
    /\ SelInfimum(tree) = (IF abs = {} THEN None ELSE Pred(Min(abs)))
    /\ SelSupremum(tree) = (IF abs = {} THEN None ELSE Succ(Max(abs)))
    /\ (Used(tree) = {}) <=> (abs = {})
    /\ (tree = TreeOfRaw(Full)) <=> (abs = Points)
IsSel(r, S) == r.ok /\ r.t = SelCanon(S)
BinaryOK ==
    \A S \in SUBSET Points :
        LET o == SelCanon(S) IN
        /\ IsSel(SelUnion(tree, o), P!UnionOf(abs, S))
        /\ IsSel(SelIntersect(tree, o), P!IntersectOf(abs, S))
        /\ IsSel(SelMinus(tree, o), P!MinusOf(abs, S))
        /\ (SelIntersect(tree, o).t # NoTree) <=> P!Meets(abs, S)
        /\ (tree = o) <=> (abs = S)
===============================================================================
