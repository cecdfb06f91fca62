------------------------------ MODULE Registers -------------------------------
(***************************************************************************)
(* Programs computing with single intervals: a few registers, each holding *)
(* a range of positions (NoRange when empty).  Dense: positions are cells  *)
(* of an ordered type, registers are raw intervals; otherwise positions    *)
(* are the values of a finite type, registers are intervals.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS K, Slots, Dense
M == INSTANCE Regions WITH cur <- {}
VARIABLE reg

At(s)   == M!Span(reg[s])
Put(c, r) == reg' = [reg EXCEPT ![c] = r]

IntersectOf(a, b)  == M!Hull(At(a) \cap At(b))
EncloseOf(a, b)    == M!Hull(At(a) \cup At(b))
UnionPieces(a, b)  == M!Runs(At(a) \cup At(b))
MinusPieces(a, b)  == M!Runs(At(a) \ At(b))
ComplementPieces(a) == M!Runs((1..K) \ At(a))
Meet(a, b)         == At(a) \cap At(b) # {}

(* The smallest closed interval around: exclusive bounds (at odd cells     *)
(* other than the first and the last) move out to their value.             *)
RoundLow(c)  == IF c % 2 = 1 /\ c # 1 THEN c - 1 ELSE c
RoundUpp(c)  == IF c % 2 = 1 /\ c # K THEN c + 1 ELSE c
ClosureOf(r) == IF r = M!NoRange \/ ~Dense THEN r ELSE <<RoundLow(r[1]), RoundUpp(r[2])>>

(* Sharing a boundary point from opposite sides, at least one side         *)
(* including it (over a finite type: both do).                             *)
TouchAt(lo, hi) ==      \* lo starts, hi ends
    IF Dense THEN /\ lo # 1 /\ hi # K
                  /\ RoundLow(lo) = RoundUpp(hi)
                  /\ (lo % 2 = 0 \/ hi % 2 = 0)
    ELSE lo = hi
Adjacent(a, b) ==
    LET x == reg[a]  y == reg[b] IN
    /\ x # M!NoRange /\ y # M!NoRange
    /\ TouchAt(x[1], y[2]) \/ TouchAt(y[1], x[2])

Init == reg = [s \in Slots |-> M!NoRange]
Build(c, r)        == Put(c, r)
Intersect(a, b, c) == Put(c, IntersectOf(a, b))
Enclose(a, b, c)   == Put(c, EncloseOf(a, b))
Closure(a, c)      == Put(c, ClosureOf(reg[a]))
Keep(c, pieces, i) == IF i = 0 THEN UNCHANGED reg ELSE Put(c, pieces[i])
Look               == UNCHANGED reg

Next ==
    \/ \E c \in Slots, r \in M!Args : Build(c, r)
    \/ \E a \in Slots, b \in Slots, c \in Slots :
         \/ Intersect(a, b, c) \/ Enclose(a, b, c)
         \/ \E ps \in {UnionPieces(a, b), MinusPieces(a, b), ComplementPieces(a)} :
              \E i \in 0..Len(ps) : Keep(c, ps, i)
    \/ \E a \in Slots, c \in Slots : Closure(a, c)
    \/ Look
Spec == Init /\ [][Next]_reg

TypeOK == reg \in [Slots -> M!Args]
(* Laws of the pieces: disjoint, not mergeable, no more than two. *)
PieceLaws ==
    \A a, b \in Slots :
        /\ \A ps \in {UnionPieces(a, b), MinusPieces(a, b), ComplementPieces(a)} :
             M!IsDecomposition(ps) /\ Len(ps) <= 2
        /\ M!SpanAll(UnionPieces(a, b)) = At(a) \cup At(b)
        /\ M!SpanAll(MinusPieces(a, b)) = At(a) \ At(b)
        /\ Meet(a, b) <=> MinusPieces(a, b) # M!Runs(At(a))
        /\ (Len(UnionPieces(a, b)) = 1 /\ reg[a] # M!NoRange /\ reg[b] # M!NoRange) =>
              UnionPieces(a, b) = <<EncloseOf(a, b)>>
ClosureLaws ==
    \A a \in Slots :
        /\ At(a) \subseteq M!Span(ClosureOf(reg[a]))
        /\ ClosureOf(ClosureOf(reg[a])) = ClosureOf(reg[a])
===============================================================================
