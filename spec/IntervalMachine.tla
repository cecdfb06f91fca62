---------------------------- MODULE IntervalMachine ---------------------------
(***************************************************************************)
(* Programs on intervals over the finite chain 1..N: the algorithms of     *)
(* src/interval.rs and src/normalize.rs step together with Registers over  *)
(* the values.  One more register holds any raw value a caller can write   *)
(* down, normalized and denormalized in place and converted to intervals.  *)
(***************************************************************************)
EXTENDS Chain
Slots == {1, 2}
VARIABLES iv, reg, loose, pts
vars == <<iv, reg, loose, pts>>
A == INSTANCE Registers WITH K <- N, Dense <- FALSE
PR(w) == IF w = Empty THEN <<1, 0>> ELSE <<w[2], w[3]>>
PutIv(c, w) == iv' = [iv EXCEPT ![c] = w]
Rest == UNCHANGED <<loose, pts>>

Init == iv = [s \in Slots |-> Empty] /\ A!Init /\ loose = Empty /\ pts = {}
(* the loose raw value *)
Write(w)    == loose' = w /\ pts' = PointsOf(w) /\ UNCHANGED <<iv, reg>>
Normalize   == loose' = NormalizeImpl(loose) /\ UNCHANGED <<pts, iv, reg>>
Denormalize == loose' = DenormalizeImpl(loose) /\ UNCHANGED <<pts, iv, reg>>
Convert(c)  == PutIv(c, NormalizeImpl(loose)) /\ A!Build(c, P!Hull(pts)) /\ Rest
(* intervals *)
DoBuild(c, l, u) ==
    LET w == NormalizeImpl(Construct(l, u)) IN PutIv(c, w) /\ A!Build(c, P!Hull(PointsOf(Construct(l, u)))) /\ Rest
DoIntersect(a, b, c) == PutIv(c, IvIntersectImpl(iv[a], iv[b])) /\ A!Intersect(a, b, c) /\ Rest
DoEnclose(a, b, c)   == PutIv(c, IvEncloseImpl(iv[a], iv[b])) /\ A!Enclose(a, b, c) /\ Rest
DoClosure(a, c)      == PutIv(c, NormalizeImpl(ClosureImpl(iv[a]))) /\ A!Closure(a, c) /\ Rest
DoPiece(c, got, ps, i) ==
    (\E j \in 1..Len(got) : PR(got[j]) = ps[i] /\ PutIv(c, got[j])) /\ A!Keep(c, ps, i) /\ Rest
DoUnion(a, b, c)   == LET ps == A!UnionPieces(a, b) IN \E i \in 1..Len(ps) : DoPiece(c, IvUnionImpl(iv[a], iv[b]), ps, i)
DoMinus(a, b, c)   == LET ps == A!MinusPieces(a, b) IN \E i \in 1..Len(ps) : DoPiece(c, IvMinusImpl(iv[a], iv[b]), ps, i)
DoComplement(a, c) == LET ps == A!ComplementPieces(a) IN \E i \in 1..Len(ps) : DoPiece(c, IvComplementImpl(iv[a]), ps, i)
Next ==
    \/ \E w \in AnyRaw : Write(w)
    \/ Normalize \/ Denormalize
    \/ \E c \in Slots : Convert(c)
    \/ \E c \in Slots, l \in Bounds, u \in Bounds : DoBuild(c, l, u)
    \/ \E a \in Slots, b \in Slots, c \in Slots :
         DoIntersect(a, b, c) \/ DoEnclose(a, b, c) \/ DoUnion(a, b, c) \/ DoMinus(a, b, c)
    \/ \E a \in Slots, c \in Slots : DoClosure(a, c) \/ DoComplement(a, c)
Spec == Init /\ [][Next]_vars

Faithful == \A s \in Slots : PR(iv[s]) = reg[s]
Formed   == \A s \in Slots : iv[s] \in Ivs          \* always in normal form
(* normalizing and denormalizing never change the points; the normal form *)
(* depends on the points only                                              *)
LooseOK ==
    /\ PointsOf(loose) = pts
    /\ NormalizeImpl(loose) = Normal(pts)
    /\ NormalizeImpl(NormalizeImpl(loose)) = NormalizeImpl(loose)
    /\ pts # {} => DenormalizeImpl(loose) = Denormal(pts) /\ NormalizeImpl(DenormalizeImpl(loose)) = Normal(pts)
Ranges(seq) == {PR(seq[i]) : i \in 1..Len(seq)}
AnswersOK ==
    \A a, b \in Slots :
        /\ \A v \in Points : ContainsImpl(iv[a], v) <=> v \in A!At(a)
        /\ (IntersectImpl(iv[a], iv[b]) # Empty) <=> A!Meet(a, b)
        /\ AdjacentImpl(iv[a], iv[b]) <=> A!Adjacent(a, b)
        /\ (iv[a] = iv[b]) <=> (A!At(a) = A!At(b))
        /\ LET u == IvUnionImpl(iv[a], iv[b])  m == IvMinusImpl(iv[a], iv[b])  c == IvComplementImpl(iv[a]) IN
           /\ Ranges(u) = Range(A!UnionPieces(a, b)) /\ Len(u) = Len(A!UnionPieces(a, b))
           /\ Ranges(m) = Range(A!MinusPieces(a, b)) /\ Len(m) = Len(A!MinusPieces(a, b))
           /\ Ranges(c) = Range(A!ComplementPieces(a)) /\ Len(c) = Len(A!ComplementPieces(a))
===============================================================================
