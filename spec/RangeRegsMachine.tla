---------------------------- MODULE RangeRegsMachine ---------------------------
(***************************************************************************)
(* RangeRegs refines Registers, action by action and answer by answer.     *)
(***************************************************************************)
EXTENDS RangeRegs
R == INSTANCE Registers
Next ==
    \/ \E c \in Slots, r \in R!M!Args : Build(c, r)
    \/ \E a \in Slots, b \in Slots, c \in Slots :
         \/ Intersect(a, b, c) \/ Enclose(a, b, c)
         \/ \E ps \in {UnionPieces(a, b), MinusPieces(a, b), ComplementPieces(a)} :
              \E i \in 0..Len(ps) : Keep(c, ps, i)
    \/ \E a \in Slots, c \in Slots : Closure(a, c)
    \/ Look
Spec == Init /\ [][Next]_reg
Refines == R!Spec
AnswersOK ==
    \A a, b \in Slots :
        /\ \A p \in 1..K : Holds(a, p) <=> p \in R!At(a)
        /\ IntersectOf(a, b) = R!IntersectOf(a, b)
        /\ EncloseOf(a, b) = R!EncloseOf(a, b)
        /\ UnionPieces(a, b) = R!UnionPieces(a, b)
        /\ MinusPieces(a, b) = R!MinusPieces(a, b)
        /\ ComplementPieces(a) = R!ComplementPieces(a)
        /\ ClosureOf(reg[a]) = R!ClosureOf(reg[a])
        /\ Meet(a, b) <=> R!Meet(a, b)
        /\ Adjacent(a, b) <=> R!Adjacent(a, b)
===============================================================================
