----------------------------- MODULE TreeMachine ------------------------------
(***************************************************************************)
(* Every history of a bound tree.  The concrete tree and the abstract set  *)
(* of cells take every step together; TLC checks that the algorithms of    *)
(* TineTree never panic, that the tree always is the one canonical form of *)
(* the abstract set, and that queries and binary operations answer by that *)
(* set.                                                                    *)
(***************************************************************************)
EXTENDS TineTree
VARIABLES tree, ok, abs
vars == <<tree, ok, abs>>
Abstract == INSTANCE Regions WITH K <- NCells, cur <- abs

Init == tree = NoTree /\ ok = TRUE /\ Abstract!Init
Become(r) == tree' = r.t /\ ok' = r.ok

DoUnion(w)     == Become(UnionRaw(tree, w))     /\ Abstract!UnionStep(RangeOf(w))
DoIntersect(w) == Become(IntersectRaw(tree, w)) /\ Abstract!IntersectStep(RangeOf(w))
DoMinus(w)     == Become(MinusRaw(tree, w))     /\ Abstract!MinusStep(RangeOf(w))
DoComplement   == Become(ComplementTree(tree))  /\ Abstract!ComplementStep
DoReset(w)     == Become(Ok(TreeOfRaw(w)))      /\ Abstract!ResetStep(RangeOf(w))
DoReload       == UNCHANGED <<tree, ok>>        /\ Abstract!ReloadStep

Next == ok /\ (\/ \E w \in Raws : DoUnion(w) \/ DoIntersect(w) \/ DoMinus(w) \/ DoReset(w)
               \/ DoComplement \/ DoReload)
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
NoPanic   == ok
Canonical == tree = CanonTree(abs)
Faithful  == Sane(tree) /\ Denote(tree) = abs

(* The marker before a position tells whether the gap below it is inside,  *)
(* the one after it whether the gap above is: edits depend on the tree     *)
(* only through the neighbourhoods of their two ends.                      *)
LocalOK ==
    \A p \in Vals :
        /\ IsLower(CodeAt(tree, PrevUsed(tree, p))) <=> 2*p - 1 \in abs
        /\ IsUpper(CodeAt(tree, NextUsed(tree, p))) <=> 2*p + 1 \in abs

QueriesOK ==
    LET runs == R!Runs(abs) IN
    /\ EncloseTree(tree) = RawOf(R!Hull(abs))
    /\ (Used(tree) = {}) <=> (abs = {})
    /\ \A v \in Vals : ContainsPoint(tree, v) <=> 2*v \in abs
    /\ Intervals(tree) = [i \in 1..Len(runs) |-> RawOf(runs[i])]

(* Binary operations against every other tree. *)
IsTreeOf(r, S) == r.ok /\ r.t = CanonTree(S)
BinaryOK ==
    \A S \in SUBSET Cells :
        LET o == CanonTree(S) IN
        /\ IsTreeOf(UnionTree(tree, o), R!UnionOf(abs, S))
        /\ IsTreeOf(IntersectTree(tree, o), R!IntersectOf(abs, S))
        /\ IsTreeOf(MinusTree(tree, o), R!MinusOf(abs, S))

(* Canonical form is injective: equal trees exactly for equal sets. *)
OneFormPerSet == \A S \in SUBSET Cells : CanonTree(S) = tree => S = abs
===============================================================================
