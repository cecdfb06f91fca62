------------------------------- MODULE RangeRegs -------------------------------
(***************************************************************************)
(* Registers without explicit sets: its actions computed on run lists, so  *)
(* that recorded programs over whole 16-bit types can be judged.           *)
(* RangeRegsMachine shows that they refine Registers.                      *)
(***************************************************************************)
EXTENDS RunLists
CONSTANTS K, Slots, Dense
VARIABLE reg
NoRange == <<1, 0>>

At(s)     == RLSpan(reg[s])
Holds(s, p) == reg[s][1] <= p /\ p <= reg[s][2]
Put(c, r) == reg' = [reg EXCEPT ![c] = r]

IntersectOf(a, b)   == RLHull(RLIntersect(K, At(a), At(b)))
EncloseOf(a, b)     == RLHull(RLUnion(At(a), At(b)))
UnionPieces(a, b)   == RLUnion(At(a), At(b))
MinusPieces(a, b)   == RLMinus(K, At(a), At(b))
ComplementPieces(a) == RLComplement(K, At(a))
Meet(a, b)          == RLIntersect(K, At(a), At(b)) # <<>>

(* exclusive bounds move out to their value *)
RoundLow(c)  == IF c % 2 = 1 /\ c # 1 THEN c - 1 ELSE c
RoundUpp(c)  == IF c % 2 = 1 /\ c # K THEN c + 1 ELSE c
ClosureOf(r) == IF r = NoRange \/ ~Dense THEN r ELSE <<RoundLow(r[1]), RoundUpp(r[2])>>
TouchAt(lo, hi) ==
    IF Dense THEN lo # 1 /\ hi # K /\ RoundLow(lo) = RoundUpp(hi) /\ (lo % 2 = 0 \/ hi % 2 = 0)
    ELSE lo = hi
Adjacent(a, b) ==
    /\ reg[a] # NoRange /\ reg[b] # NoRange
    /\ TouchAt(reg[a][1], reg[b][2]) \/ TouchAt(reg[b][1], reg[a][2])

Init == reg = [s \in Slots |-> NoRange]
Build(c, r)        == Put(c, r)
Intersect(a, b, c) == Put(c, IntersectOf(a, b))
Enclose(a, b, c)   == Put(c, EncloseOf(a, b))
Closure(a, c)      == Put(c, ClosureOf(reg[a]))
Keep(c, pieces, i) == IF i = 0 THEN UNCHANGED reg ELSE Put(c, pieces[i])
Look               == UNCHANGED reg
===============================================================================
