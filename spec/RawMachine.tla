------------------------------ MODULE RawMachine ------------------------------
(***************************************************************************)
(* Programs on raw intervals: the algorithms of src/raw_interval.rs (case  *)
(* analyses on bounds) step together with Registers over cells.            *)
(***************************************************************************)
EXTENDS RawAlgebra
Slots == {1, 2}
VARIABLES raw, reg
vars == <<raw, reg>>
A == INSTANCE Registers WITH K <- NCells, Dense <- TRUE
PutRaw(c, w) == raw' = [raw EXCEPT ![c] = w]

Init == raw = [s \in Slots |-> Empty] /\ A!Init
DoBuild(c, l, u)     == PutRaw(c, Construct(l, u)) /\ A!Build(c, RangeOf(Construct(l, u)))
DoIntersect(a, b, c) == PutRaw(c, IntersectImpl(raw[a], raw[b])) /\ A!Intersect(a, b, c)
DoEnclose(a, b, c)   == PutRaw(c, EncloseImpl(raw[a], raw[b])) /\ A!Enclose(a, b, c)
DoClosure(a, c)      == PutRaw(c, ClosureImpl(raw[a])) /\ A!Closure(a, c)
(* pieces come in no promised order: match them by position *)
DoPiece(c, got, ps, i) ==
    \E j \in 1..Len(got) : RangeOf(got[j]) = ps[i] /\ PutRaw(c, got[j]) /\ A!Keep(c, ps, i)
DoUnion(a, b, c)     == LET ps == A!UnionPieces(a, b) IN \E i \in 1..Len(ps) : DoPiece(c, UnionImpl(raw[a], raw[b]), ps, i)
DoMinus(a, b, c)     == LET ps == A!MinusPieces(a, b) IN \E i \in 1..Len(ps) : DoPiece(c, MinusImpl(raw[a], raw[b]), ps, i)
DoComplement(a, c)   == LET ps == A!ComplementPieces(a) IN \E i \in 1..Len(ps) : DoPiece(c, ComplementImpl(raw[a]), ps, i)
Next ==
    \/ \E c \in Slots, l \in Bounds, u \in Bounds : DoBuild(c, l, u)
    \/ \E a \in Slots, b \in Slots, c \in Slots :
         DoIntersect(a, b, c) \/ DoEnclose(a, b, c) \/ DoUnion(a, b, c) \/ DoMinus(a, b, c)
    \/ \E a \in Slots, c \in Slots : DoClosure(a, c) \/ DoComplement(a, c)
Spec == Init /\ [][Next]_vars

Faithful == \A s \in Slots : RangeOf(raw[s]) = reg[s]
Formed   == \A s \in Slots : WellFormed(raw[s])
Ranges(seq) == {RangeOf(seq[i]) : i \in 1..Len(seq)}
AnswersOK ==
    \A a, b \in Slots :
        /\ \A v \in Vals : ContainsImpl(raw[a], v) <=> 2*v \in A!At(a)
        /\ (IntersectImpl(raw[a], raw[b]) # Empty) <=> A!Meet(a, b)
        /\ AdjacentImpl(raw[a], raw[b]) <=> A!Adjacent(a, b)
        /\ (raw[a] = raw[b]) <=> (reg[a] = reg[b])
        /\ ClosureSpec(raw[a]) = RawOf(A!ClosureOf(reg[a]))
        /\ LET u == UnionImpl(raw[a], raw[b])  m == MinusImpl(raw[a], raw[b])  c == ComplementImpl(raw[a]) IN
           /\ Ranges(u) = Range(A!UnionPieces(a, b)) /\ Len(u) = Len(A!UnionPieces(a, b))
           /\ Ranges(m) = Range(A!MinusPieces(a, b)) /\ Len(m) = Len(A!MinusPieces(a, b))
           /\ Ranges(c) = Range(A!ComplementPieces(a)) /\ Len(c) = Len(A!ComplementPieces(a))
===============================================================================
