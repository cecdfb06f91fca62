------------------------------- MODULE Unbounded -------------------------------
(***************************************************************************)
(* Bounds, raw intervals and intervals with no bound on the number of      *)
(* values: N, the two bounds, the two raw values, the cell and the point   *)
(* are arbitrary.  The algorithms of the code (BoundOps, RawOps, ChainOps) *)
(* give exactly the cells and points the operations mean.  Checked by      *)
(* Apalache (SMT); TLC enumerates the same algorithms for N <= 4 in        *)
(* BoundMachine, RawMachine and IntervalMachine.                           *)
(***************************************************************************)
EXTENDS ChainOps

VARIABLES
    \* @type: Str;
    op,
    \* @type: $raw;
    rawA,
    \* @type: $raw;
    rawB,
    \* @type: $bnd;
    bndX,
    \* @type: $bnd;
    bndY,
    \* @type: Int;
    cell,
    \* @type: Int;
    val,
    \* @type: $bnd;
    resB,
    \* @type: $raw;
    resW,
    \* @type: $pair;
    resP,
    \* @type: $raw;
    resN

ConstInit == N \in Nat /\ N >= 1

\* @type: (Int) => Bool;
Val(v) == 1 <= v /\ v <= N
\* @type: ($bnd) => Bool;
IsBnd(d) == (d[1] = "X" /\ d[2] = 0) \/ (d[1] \in {"I", "E"} /\ Val(d[2]))
(* Whatever an enum value can hold. *)
\* @type: ($raw) => Bool;
IsAny(w) ==
    LET l == w[2]  r == w[3] IN
    CASE w[1] \in {kEmpty, kFull} -> l = 0 /\ r = 0
      [] w[1] = kPoint -> Val(l) /\ l = r
      [] w[1] \in {kOpen, kLeftOpen, kRightOpen, kClosed} -> Val(l) /\ Val(r)
      [] w[1] \in {kUpFrom, kFrom} -> Val(l) /\ r = 0
      [] w[1] \in {kUpTo, kTo} -> l = 0 /\ Val(r)
(* Well formed: WellFormed of Cells, spelled out. *)
\* @type: ($raw) => Bool;
IsRaw(w) == IsAny(w) /\ (w[1] \in {kOpen, kLeftOpen, kRightOpen, kClosed} => w[2] < w[3])
(* Normal forms of intervals over the chain. *)
\* @type: ($raw) => Bool;
IsIv(w) == IsRaw(w) /\ w[1] \in {kEmpty, kPoint, kClosed}
\* @type: $pair;
NoPair == <<Empty, Empty>>

(* Arbitrary arguments: any enum values; well formed ones; normal forms. *)
Init ==
    /\ op = "none"
    /\ \E k \in 0..10, l \in Int, r \in Int : rawA = MkRaw(k, l, r)
    /\ \E k \in 0..10, l \in Int, r \in Int : rawB = MkRaw(k, l, r)
    /\ \E k \in {"I", "E", "X"}, v \in Int : bndX = <<k, v>>
    /\ \E k \in {"I", "E", "X"}, v \in Int : bndY = <<k, v>>
    /\ cell \in Int /\ val \in Int
    /\ 1 <= cell /\ cell <= NCells /\ Val(val)
    /\ IsAny(rawA) /\ IsAny(rawB) /\ IsBnd(bndX) /\ IsBnd(bndY)
    /\ resB = Inf /\ resW = Empty /\ resP = NoPair /\ resN = Empty
InitRaw == Init /\ IsRaw(rawA) /\ IsRaw(rawB)
InitIv  == Init /\ IsIv(rawA) /\ IsIv(rawB)

(* One call of the code. *)
Args == UNCHANGED <<rawA, rawB, bndX, bndY, cell, val>>
\* @type: (Str, $bnd) => Bool;
GivesBound(name, r) == Args /\ op' = name /\ resB' = r /\ UNCHANGED <<resW, resP, resN>>
\* @type: (Str, $raw) => Bool;
Gives(name, r) == Args /\ op' = name /\ resW' = r /\ UNCHANGED <<resB, resP, resN>>
\* @type: (Str, $pair) => Bool;
GivesPieces(name, r) == Args /\ op' = name /\ resP' = r /\ UNCHANGED <<resB, resW, resN>>

-------------------------------------------------------------------------------
(* Bounds and raw intervals, from InitRaw. *)
NextRaw ==
    /\ op = "none"
    /\ \/ GivesBound("least union", LeastUnion(bndX, bndY))
       \/ GivesBound("greatest union", GreatestUnion(bndX, bndY))
       \/ GivesBound("least intersect", LeastIntersect(bndX, bndY))
       \/ GivesBound("greatest intersect", GreatestIntersect(bndX, bndY))
       \/ Gives("new", Construct(bndX, bndY))
       \/ rawA # Empty /\ Gives("rebuild", Construct(RawLower(rawA), RawUpper(rawA)))
       \/ Gives("closure", ClosureImpl(rawA))
       \/ Gives("intersect", IntersectImpl(rawA, rawB))
       \/ Gives("enclose", EncloseImpl(rawA, rawB))
       \/ GivesPieces("complement", ComplementParts(rawA))
       \/ GivesPieces("union", UnionParts(rawA, rawB))
       \/ GivesPieces("minus", MinusParts(rawA, rawB))

(* the cells a raw interval denotes *)
\* @type: ($raw, Int) => Bool;
In(w, d) == w # Empty /\ LowCell(RawLower(w)) <= d /\ d <= UppCell(RawUpper(w))
InSome == In(resP[1], cell) \/ In(resP[2], cell)
PiecesOK ==     \* well formed, disjoint, not mergeable
    /\ IsRaw(resP[1]) /\ IsRaw(resP[2])
    /\ (resP[1] # Empty /\ resP[2] # Empty) =>
         \/ UppCell(RawUpper(resP[1])) + 1 < LowCell(RawLower(resP[2]))
         \/ UppCell(RawUpper(resP[2])) + 1 < LowCell(RawLower(resP[1]))
InA == In(rawA, cell)
InB == In(rawB, cell)
\* @type: ($bnd) => Bool;
From(d) == LowCell(d) <= cell
\* @type: ($bnd) => Bool;
UpTo(d) == cell <= UppCell(d)

BoundsOK ==
    /\ op = "least union"        => resB \in {bndX, bndY} /\ (From(resB) <=> (From(bndX) \/ From(bndY)))
    /\ op = "greatest union"     => resB \in {bndX, bndY} /\ (UpTo(resB) <=> (UpTo(bndX) \/ UpTo(bndY)))
    /\ op = "least intersect"    => resB \in {bndX, bndY} /\ (UpTo(resB) <=> (UpTo(bndX) /\ UpTo(bndY)))
    /\ op = "greatest intersect" => resB \in {bndX, bndY} /\ (From(resB) <=> (From(bndX) /\ From(bndY)))
NewOK ==        \* coincident bounds, one of them excluding: the point, or nothing
    op = "new" =>
        LET same == ~IsInf(bndX) /\ ~IsInf(bndY) /\ bndX[2] = bndY[2] IN
        /\ IsRaw(resW)
        /\ (same /\ ~(IsExc(bndX) /\ IsExc(bndY))) => resW = MkRaw(kPoint, bndX[2], bndX[2])
        /\ (~same \/ (IsExc(bndX) /\ IsExc(bndY))) => (In(resW, cell) <=> (From(bndX) /\ UpTo(bndY)))
RebuildOK == op = "rebuild" => resW = rawA
ContainsOK == ContainsImpl(rawA, val) <=> In(rawA, 2 * val)
ClosureOK ==
    op = "closure" =>
        /\ IsRaw(resW)
        /\ InA => In(resW, cell)
        /\ rawA = Empty => resW = Empty
        /\ rawA # Empty => /\ resW # Empty /\ ~IsExc(RawLower(resW)) /\ ~IsExc(RawUpper(resW))
                           /\ RawLower(resW)[2] = RawLower(rawA)[2] /\ RawUpper(resW)[2] = RawUpper(rawA)[2]
IntersectOK == op = "intersect" => IsRaw(resW) /\ (In(resW, cell) <=> (InA /\ InB))
EncloseOK ==    \* around both, and no further than their ends
    op = "enclose" =>
        LET Low(d) == d # Empty /\ LowCell(RawLower(resW)) = LowCell(RawLower(d))
            Upp(d) == d # Empty /\ UppCell(RawUpper(resW)) = UppCell(RawUpper(d)) IN
        /\ IsRaw(resW)
        /\ (InA \/ InB) => In(resW, cell)
        /\ resW # Empty => (Low(rawA) \/ Low(rawB)) /\ (Upp(rawA) \/ Upp(rawB))
ComplementOK == op = "complement" => PiecesOK /\ (InSome <=> ~InA)
UnionOK      == op = "union"      => PiecesOK /\ (InSome <=> (InA \/ InB))
MinusOK      == op = "minus"      => PiecesOK /\ (InSome <=> (InA /\ ~InB))
(* one raw interval per set: different ones differ in a cell at an end *)
OneForm ==
    LET Differ(d) == In(rawA, d) # In(rawB, d) IN
    (rawA # rawB /\ rawA # Empty /\ rawB # Empty) =>
        \/ Differ(LowCell(RawLower(rawA))) \/ Differ(UppCell(RawUpper(rawA)))
        \/ Differ(LowCell(RawLower(rawB))) \/ Differ(UppCell(RawUpper(rawB)))
RawInv ==
    /\ BoundsOK /\ NewOK /\ RebuildOK /\ ContainsOK /\ ClosureOK /\ IntersectOK /\ EncloseOK
    /\ ComplementOK /\ UnionOK /\ MinusOK /\ OneForm

-------------------------------------------------------------------------------
(* Normal and denormal forms of any raw value, from Init. *)
NextForm ==
    \/ op = "none" /\ Gives("normalize", NormalizeImpl(rawA))
    \/ op = "none" /\ Gives("denormalize", DenormalizeImpl(rawA))
    \* and of the form: kept in resN
    \/ /\ op \in {"normalize", "denormalize"}
       /\ Args /\ UNCHANGED <<resB, resW, resP>>
       /\ \/ op' = (IF op = "normalize" THEN "nn" ELSE "dn") /\ resN' = NormalizeImpl(resW)
          \/ op' = (IF op = "normalize" THEN "nd" ELSE "dd") /\ resN' = DenormalizeImpl(resW)
\* @type: ($raw) => Bool;
Has(w) == ContainsImpl(w, val)
FormInv ==
    /\ op = "normalize" => IsIv(resW)
    /\ op # "none" => (Has(resW) <=> Has(rawA))
    /\ (op = "denormalize" /\ Has(rawA)) => resW[1] \in {kOpen, kUpTo, kUpFrom, kFull}
    /\ op = "nn" => resN = resW
    /\ (op = "dd" /\ Has(rawA)) => resN = resW
    /\ op = "dn" => IsIv(resN) /\ (Has(resN) <=> Has(rawA))
    /\ (op = "nd" /\ Has(rawA)) => resN[1] \in {kOpen, kUpTo, kUpFrom, kFull} /\ (Has(resN) <=> Has(rawA))

-------------------------------------------------------------------------------
(* Intervals over the chain, from InitIv: raw operations, renormalized.    *)
(* Union works on the denormal forms.                                      *)
NextIv ==
    \/ /\ op = "none"
       /\ \/ Gives("raw intersect", IntersectImpl(rawA, rawB))
          \/ Gives("raw enclose", EncloseImpl(rawA, rawB))
          \/ Gives("raw closure", ClosureImpl(rawA))
          \/ Gives("denormal", DenormalizeImpl(rawA))
          \/ GivesPieces("raw minus", MinusParts(rawA, rawB))
          \/ GivesPieces("raw complement", ComplementParts(rawA))
    \/ /\ op = "denormal"
       /\ Args /\ op' = "denormals" /\ resN' = DenormalizeImpl(rawB) /\ UNCHANGED <<resB, resW, resP>>
    \/ op = "denormals" /\ GivesPieces("raw union", UnionParts(resW, resN))
    \/ /\ op \in {"raw intersect", "raw enclose", "raw closure"}
       /\ Args /\ op' = CASE op = "raw intersect" -> "intersect" [] op = "raw enclose" -> "enclose" [] OTHER -> "closure"
       /\ resN' = NormalizeImpl(resW) /\ UNCHANGED <<resB, resW, resP>>
    \/ /\ op \in {"raw minus", "raw complement", "raw union"}
       /\ Args /\ op' = CASE op = "raw minus" -> "minus" [] op = "raw complement" -> "complement" [] OTHER -> "union"
       /\ resW' = NormalizeImpl(resP[1]) /\ resN' = NormalizeImpl(resP[2]) /\ UNCHANGED <<resB, resP>>
HasA == Has(rawA)
HasB == Has(rawB)
IvPiecesOK ==
    /\ IsIv(resW) /\ IsIv(resN)
    /\ (resW # Empty /\ resN # Empty) => resW[3] + 1 < resN[2] \/ resN[3] + 1 < resW[2]
    \* the code drops empty pieces of the complement only
    /\ op # "complement" => (resP[1] # Empty => resW # Empty) /\ (resP[2] # Empty => resN # Empty)
HasSome == Has(resW) \/ Has(resN)
IvInv ==
    /\ (rawA # Empty /\ rawB # Empty) => (AdjacentImpl(rawA, rawB) <=> (rawA[2] = rawB[3] \/ rawA[3] = rawB[2]))
    /\ op = "intersect" => IsIv(resN) /\ (resW = Empty <=> resN = Empty) /\ (Has(resN) <=> (HasA /\ HasB))
    /\ op = "enclose" =>
         /\ IsIv(resN) /\ (HasA \/ HasB => Has(resN))
         /\ rawA = Empty => resN = rawB
         /\ rawB = Empty => resN = rawA
         /\ (rawA # Empty /\ rawB # Empty) => (resN[2] = rawA[2] \/ resN[2] = rawB[2]) /\ (resN[3] = rawA[3] \/ resN[3] = rawB[3])
    /\ op = "closure" => resN = rawA
    /\ op = "minus" => IvPiecesOK /\ (HasSome <=> (HasA /\ ~HasB))
    /\ op = "complement" => IvPiecesOK /\ (HasSome <=> ~HasA)
    /\ op = "union" => IvPiecesOK /\ (HasSome <=> (HasA \/ HasB))
===============================================================================
