------------------------------ MODULE RawAlgebra ------------------------------
(***************************************************************************)
(* RawInterval: meaning of every operation on cells, and the algorithms of *)
(* src/raw_interval.rs (RawOps); TLC checks agreement for all arguments.  *)
(***************************************************************************)
EXTENDS BoundAlgebra, RawOps, FiniteSetsExt, SequencesExt

R == INSTANCE Regions WITH K <- NCells, cur <- {}

(* Meaning of the operations: sets of raw intervals (pieces, unordered). *)
Pieces(S)          == {RawOf(x) : x \in Range(R!Runs(S))}
ComplementSpec(a)  == Pieces(Cells \ CellsOf(a))
IntersectSpec(a,b) == RawOf(R!Hull(CellsOf(a) \cap CellsOf(b)))
UnionSpec(a, b)    == Pieces(CellsOf(a) \cup CellsOf(b))
MinusSpec(a, b)    == Pieces(CellsOf(a) \ CellsOf(b))
EncloseSpec(a, b)  == RawOf(R!Hull(CellsOf(a) \cup CellsOf(b)))
IntersectsSpec(a,b) == CellsOf(a) \cap CellsOf(b) # {}
AdjacentRawSpec(a, b) ==
    /\ a # Empty /\ b # Empty
    /\ \/ AdjacentSpec(RawLower(a), RawUpper(b))
       \/ AdjacentSpec(RawUpper(a), RawLower(b))

(* The smallest closed raw interval around a: no exclusive bound left. *)
Closeds == {w \in Raws : w = Empty \/ (~IsExc(RawLower(w)) /\ ~IsExc(RawUpper(w)))}
ClosureSpec(a) ==
    CHOOSE w \in Closeds :
        /\ CellsOf(a) \subseteq CellsOf(w)
        /\ \A x \in Closeds : CellsOf(a) \subseteq CellsOf(x) => CellsOf(w) \subseteq CellsOf(x)

(* Bulk operations: meaning. *)
RECURSIVE CellsAll(_), CommonAll(_)
CellsAll(s)  == IF s = <<>> THEN {} ELSE CellsOf(Head(s)) \cup CellsAll(Tail(s))
CommonAll(s) == IF s = <<>> THEN Cells ELSE CellsOf(Head(s)) \cap CommonAll(Tail(s))
EncloseAllSpec(s)   == RawOf(R!Hull(CellsAll(s)))
IntersectAllSpec(s) == RawOf(R!Hull(CommonAll(s)))
UnionAllSpec(s)     == Pieces(CellsAll(s))

(* Algorithms of the code, with the pieces as sequences. *)
Kept(parts)         == SelectSeq(parts, LAMBDA x : x # Empty)
ComplementImpl(w)   == Kept(ComplementParts(w))
UnionImpl(a, b)     == Kept(UnionParts(a, b))
MinusImpl(a, b)     == Kept(MinusParts(a, b))

RECURSIVE EncloseAllImpl(_, _), IntersectAllImpl(_, _), UnionAllImpl(_, _)
EncloseAllImpl(acc, s)   == IF s = <<>> THEN acc ELSE EncloseAllImpl(EncloseImpl(acc, Head(s)), Tail(s))
IntersectAllImpl(acc, s) == IF s = <<>> THEN acc ELSE IntersectAllImpl(IntersectImpl(acc, Head(s)), Tail(s))
(* union_all: fold; every kept piece that touches the next one is merged   *)
(* into it.                                                                *)
MergeStep(prev, next) ==
    LET RECURSIVE go(_, _, _)
        go(p, kept, nx) ==
            IF p = <<>> THEN Append(kept, nx)
            ELSE IF IntersectImpl(Head(p), nx) # Empty \/ AdjacentImpl(Head(p), nx)
                 THEN go(Tail(p), kept, EncloseImpl(Head(p), nx))
                 ELSE go(Tail(p), Append(kept, Head(p)), nx)
    IN go(prev, <<>>, next)
UnionAllImpl(acc, s) ==
    IF s = <<>> THEN acc
    ELSE IF Head(s) = Empty THEN UnionAllImpl(acc, Tail(s))
    ELSE IF Head(s) = Full THEN UnionAllImpl(<<Full>>, Tail(s))
    ELSE UnionAllImpl(MergeStep(acc, Head(s)), Tail(s))

IsPieces(seq, set) == Range(seq) = set /\ Len(seq) = Cardinality(set)

UnaryAgree ==
    \A a \in Raws :
        /\ \A v \in Vals : ContainsImpl(a, v) <=> 2*v \in CellsOf(a)
        /\ IsPieces(ComplementImpl(a), ComplementSpec(a))
        /\ ClosureImpl(a) = ClosureSpec(a)
        /\ a # Empty => Construct(RawLower(a), RawUpper(a)) = a

BinaryAgree ==
    \A a \in Raws, b \in Raws :
        /\ IntersectImpl(a, b) = IntersectSpec(a, b)
        /\ (IntersectImpl(a, b) # Empty) <=> IntersectsSpec(a, b)
        /\ AdjacentImpl(a, b) <=> AdjacentRawSpec(a, b)
        /\ IsPieces(UnionImpl(a, b), UnionSpec(a, b))
        /\ IsPieces(MinusImpl(a, b), MinusSpec(a, b))
        /\ EncloseImpl(a, b) = EncloseSpec(a, b)

BulkAgreeOn(s) ==
    /\ EncloseAllImpl(Empty, s) = EncloseAllSpec(s)
    /\ IntersectAllImpl(Full, s) = IntersectAllSpec(s)
    /\ IsPieces(UnionAllImpl(<<>>, s), UnionAllSpec(s))
===============================================================================
