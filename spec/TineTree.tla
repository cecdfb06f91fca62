------------------------------ MODULE TineTree --------------------------------
(***************************************************************************)
(* TineTree, shaped like src/tine_tree.rs: an ordered set of boundary      *)
(* markers, at most one per position, edited by splitting at the bounds of *)
(* the given interval, merging the markers met there, and putting back     *)
(* those that still mark a change.                                         *)
(*                                                                         *)
(* Positions are 0 (minus infinity), the values 1..N, and N+1 (plus        *)
(* infinity).  tree[p] is the marker at p or "no".  Every unreachable! and *)
(* debug_assert! of the code sets panicked.                                *)
(*                                                                         *)
(* The state machine over these operators is TreeMachine.                  *)
(***************************************************************************)
EXTENDS RawAlgebra, TineEdges

Places == 0..(N+1)
NoTree == [p \in Places |-> "no"]

(* Markers of a raw interval (Tine::from_raw_interval). *)
LowPlace(b) == IF IsInf(b) THEN 0 ELSE b[2]
UppPlace(b) == IF IsInf(b) THEN N+1 ELSE b[2]
LowCode(b)  == CASE IsInc(b) -> "LI" [] IsExc(b) -> "LE" [] IsInf(b) -> "LX"
UppCode(b)  == CASE IsInc(b) -> "UI" [] IsExc(b) -> "UE" [] IsInf(b) -> "UX"

TreeOfRaw(w) ==
    IF w = Empty THEN NoTree
    ELSE IF w[1] = kPoint THEN [NoTree EXCEPT ![w[2]] = "PI"]
    ELSE LET l == RawLower(w)  u == RawUpper(w) IN
         [NoTree EXCEPT ![LowPlace(l)] = LowCode(l), ![UppPlace(u)] = UppCode(u)]

(* What a tree denotes: the cells between matching markers. *)
BoundOf(p, c) == IF c \in {"LX", "UX"} THEN Inf ELSE IF c[2] = "I" THEN Inc(p) ELSE Exc(p)
CodeInc(c) == c \in {"LI", "PI", "UI"}
LowBnd(p, c) == IF c = "LX" THEN Inf ELSE IF CodeInc(c) THEN Inc(p) ELSE Exc(p)
UppBnd(p, c) == IF c = "UX" THEN Inf ELSE IF CodeInc(c) THEN Inc(p) ELSE Exc(p)

Used(t) == {p \in Places : t[p] # "no"}

(* The decomposition by the forward iterator (see TineIter for both ends): *)
(* a sequence of raw intervals.                                            *)
NextUsed(t, p) == LET s == {q \in Used(t) : q > p} IN IF s = {} THEN -1 ELSE Min(s)
PrevUsed(t, p) == LET s == {q \in Used(t) : q < p} IN IF s = {} THEN -1 ELSE Max(s)

RECURSIVE IterFrom(_, _)
IterFrom(t, p) ==
    IF p = -1 THEN <<>>
    ELSE IF t[p] = "PI" THEN << <<kPoint, p, p>> >> \o IterFrom(t, NextUsed(t, p))
    ELSE LET q == NextUsed(t, p) IN
         IF q = -1 \/ ~IsLower(t[p]) \/ ~IsUpper(t[q]) THEN << <<kPartial, p, q>> >>
         ELSE << Construct(LowBnd(p, t[p]), UppBnd(q, t[q])) >>
              \o (IF t[q] = "PE" THEN IterFrom(t, q) ELSE IterFrom(t, NextUsed(t, q)))
Intervals(t) == IterFrom(t, NextUsed(t, -1))

Sane(t)   == \A w \in Range(Intervals(t)) : w[1] # kPartial /\ WellFormed(w)
Denote(t) == UNION {CellsOf(w) : w \in Range(Intervals(t))}

(* The canonical tree of a set of cells. *)
Bit(S, c) == IF c \in S THEN 1 ELSE 0
CanonTree(S) ==
    [p \in Places |->
        IF p = 0 THEN (IF 1 \in S THEN "LX" ELSE "no")
        ELSE IF p = N+1 THEN (IF NCells \in S THEN "UX" ELSE "no")
        ELSE T!CodeOf(<<Bit(S, 2*p-1), Bit(S, 2*p), Bit(S, 2*p+1)>>)]

-------------------------------------------------------------------------------
(* Results: [t |-> tree, ok |-> did not panic]. *)
Ok(t) == [t |-> t, ok |-> TRUE]
OkIf(c, t) == IF c THEN Ok(t) ELSE [t |-> NoTree, ok |-> FALSE]
(* insert puts the marker unless one is there already; "no" inserts nothing *)
Put(t, p, c) == IF c = "no" \/ t[p] # "no" THEN t ELSE [t EXCEPT ![p] = c]

(* The splits. *)
CodeAt(t, p) == IF p = -1 THEN "no" ELSE t[p]
DropPoint(t, p)      == [t EXCEPT ![p] = "no"]
DropBetween(t, p, q) == [x \in Places |-> IF x >= p /\ x <= q THEN "no" ELSE t[x]]
KeepBetween(t, p, q) == [x \in Places |-> IF x > p /\ x < q THEN t[x] ELSE "no"]
Before(t, p) == IsLower(CodeAt(t, PrevUsed(t, p)))
After(t, p)  == IsUpper(CodeAt(t, NextUsed(t, p)))

(* Edits: what TineEdges puts at the ends of the stretch taken out. *)
AtPoint(t, p, e)         == OkIf(e.ok, Put(DropPoint(t, p), p, e.l))
AtEnds(rest, p, q, e)    == OkIf(e.ok, Put(Put(rest, p, e.l), q, e.u))

UnionPoint(t, p) == AtPoint(t, p, UnionAt(t[p], Before(t, p), After(t, p)))
UnionProper(t, p, lc, q, uc) ==
    AtEnds(DropBetween(t, p, q), p, q, UnionEnds(t[p], lc, t[q], uc, Before(t, p), After(t, q)))
UnionRaw(t, w) ==
    IF w = Full THEN Ok(TreeOfRaw(Full))
    ELSE IF w = Empty THEN Ok(t)
    ELSE IF w[1] = kPoint THEN UnionPoint(t, w[2])
    ELSE LET l == RawLower(w)  u == RawUpper(w) IN
         UnionProper(t, LowPlace(l), LowCode(l), UppPlace(u), UppCode(u))

MinusPoint(t, p) == AtPoint(t, p, MinusAt(t[p], Before(t, p), After(t, p)))
MinusProper(t, p, lc, q, uc) ==
    AtEnds(DropBetween(t, p, q), p, q, MinusEnds(t[p], lc, t[q], uc, Before(t, p), After(t, q)))
MinusRaw(t, w) ==
    IF Used(t) = {} \/ w = Empty THEN Ok(t)
    ELSE IF w = Full THEN Ok(NoTree)
    ELSE IF w[1] = kPoint THEN MinusPoint(t, w[2])
    ELSE LET l == RawLower(w)  u == RawUpper(w) IN
         MinusProper(t, LowPlace(l), LowCode(l), UppPlace(u), UppCode(u))

ContainsPoint(t, v) == \E w \in Range(Intervals(t)) : ContainsImpl(w, v)

IntersectProper(t, p, lc, q, uc) ==
    LET mid  == KeepBetween(t, p, q)
        s0   == CodeAt(t, PrevUsed(t, p))
        s1   == CodeAt(mid, NextUsed(mid, p))
        s2   == t[p]
        s3   == t[q]
        s4   == CodeAt(mid, PrevUsed(mid, q))
        s5   == CodeAt(t, NextUsed(t, q))
        First(a, b, c) == IF a # "no" THEN a ELSE IF b # "no" THEN b ELSE c
        inL  == IsUpper(First(s1, s3, s5))
        inU  == IsLower(First(s4, s2, s0))
    IN  AtEnds(mid, p, q, IntersectEnds(s2, lc, s3, uc, inL, inU))

IntersectRaw(t, w) ==
    IF Used(t) = {} \/ w = Full THEN Ok(t)
    ELSE IF w = Empty THEN Ok(NoTree)
    ELSE IF w[1] = kPoint THEN Ok(IF ContainsPoint(t, w[2]) THEN TreeOfRaw(w) ELSE NoTree)
    ELSE LET l == RawLower(w)  u == RawUpper(w) IN
         IntersectProper(t, LowPlace(l), LowCode(l), UppPlace(u), UppCode(u))

(* Whole-tree operations. *)
ComplementTree(t) ==
    IF Used(t) = {} THEN Ok(TreeOfRaw(Full))
    ELSE IF Cardinality(Used(t)) = 1
    THEN LET p == Min(Used(t)) IN
         OkIf(t[p] = "PI", [NoTree EXCEPT ![0] = "LX", ![p] = "PE", ![N+1] = "UX"])
    ELSE LET fst == Min(Used(t))
             lst == Max(Used(t))
             inv == [p \in Places |-> IF p \in Used(t) /\ p # 0 /\ p # N+1 THEN InvertCode(t[p]) ELSE "no"]
         IN  Ok([inv EXCEPT ![0] = IF t[fst] = "LX" THEN "no" ELSE "LX",
                            ![N+1] = IF t[lst] = "UX" THEN "no" ELSE "UX"])

FoldRaw(op(_, _), t, s) == FoldLeft(LAMBDA r, w : IF r.ok THEN op(r.t, w) ELSE r, Ok(t), s)

UnionTree(a, b) == FoldRaw(UnionRaw, a, Intervals(b))
MinusTree(a, b) == FoldRaw(MinusRaw, a, Intervals(b))

(* intersect: two cursors; the other tree's interval is kept while it      *)
(* reaches to or past the end of this one.                                 *)
RECURSIVE Walk(_, _, _, _)
Walk(s, o, i, j) ==     \* the pairs the two cursors visit
    IF i > Len(s) \/ j > Len(o) THEN <<>>
    ELSE <<IntersectImpl(s[i], o[j])>> \o
         (IF UppPlace(RawUpper(o[j])) >= UppPlace(RawUpper(s[i]))
          THEN Walk(s, o, i+1, j) ELSE Walk(s, o, i, j+1))
IntersectTree(a, b) == FoldRaw(UnionRaw, NoTree, Walk(Intervals(a), Intervals(b), 1, 1))

EncloseTree(t) ==
    IF Used(t) = {} THEN Empty
    ELSE IF Cardinality(Used(t)) = 1 THEN <<kPoint, Min(Used(t)), Min(Used(t))>>
    ELSE Construct(LowBnd(Min(Used(t)), t[Min(Used(t))]), UppBnd(Max(Used(t)), t[Max(Used(t))]))

===============================================================================
