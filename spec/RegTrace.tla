------------------------------- MODULE RegTrace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded program on single intervals a behaviour *)
(* of RangeRegs (so, of Registers)?  Dense traces: raw intervals over N    *)
(* values of an ordered type; otherwise: intervals over a finite type of N *)
(* values.  Every line is one public call with its arguments and all it    *)
(* returned.                                                               *)
(***************************************************************************)
EXTENDS Cells, Traversal, RunLists, TLCExt, Json, IOUtils
CONSTANT Dense
KK == IF Dense THEN NCells ELSE N
Slots == 1..4
VARIABLES reg, l
A == INSTANCE RangeRegs WITH K <- KK
T == INSTANCE Tines
Log == ndJsonDeserialize(IOEnv.TRACE)
Ev == Log[l]
IsEvent(e) == l <= Len(Log) /\ Log[l].e = e /\ l' = l + 1
B(x) == IF x THEN 1 ELSE 0
NoRange == <<1, 0>>
Bad == <<0, 0>>

(* values as positions; bounds come as <<1 Inc | 2 Exc | 0 Inf | -1 none, v>> *)
Bd(c) == CASE c[1] = 1 -> Inc(c[2]) [] c[1] = 2 -> Exc(c[2]) [] OTHER -> Inf
Code(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
Place(v) == IF Dense THEN 2 * v ELSE v
(* the values of a range of cells, as a range of values *)
ValuesOf(r) == IF r = NoRange THEN NoRange
               ELSE CellRange((r[1] + 1) \div 2, IF r[2] = NCells THEN N ELSE r[2] \div 2)
OfRaw(w) == IF Dense THEN RangeOf(w) ELSE ValuesOf(RangeOf(w))
Decode(w) ==
    IF Dense THEN (IF WellFormed(w) THEN RangeOf(w) ELSE Bad)
    ELSE CASE w[1] = kEmpty -> NoRange
           [] w[1] = kPoint -> IF w[2] = w[3] THEN <<w[2], w[2]>> ELSE Bad
           [] w[1] = kClosed -> IF w[2] < w[3] THEN <<w[2], w[3]>> ELSE Bad
           [] OTHER -> Bad
Shown(r) == IF Dense THEN RawOf(r)
            ELSE IF r[1] > r[2] THEN <<kEmpty,0,0>> ELSE IF r[1] = r[2] THEN <<kPoint, r[1], r[2]>> ELSE <<kClosed, r[1], r[2]>>
(* pieces come in any order *)
Pieces(ws, ps) == Len(ws) = Len(ps) /\ {Decode(ws[i]) : i \in 1..Len(ws)} = Range(ps)

TNew  == IsEvent("new") /\ A!Build(Ev.c, OfRaw(Construct(Bd(Ev.lo), Bd(Ev.up)))) /\ Ev.w = Shown(reg'[Ev.c])
TConv == IsEvent("conv") /\ A!Build(Ev.c, OfRaw(Ev.raw)) /\ Ev.w = Shown(reg'[Ev.c])
TBin ==
    /\ IsEvent("bin")
    /\ CASE Ev.op = "i" -> A!Intersect(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "e" -> A!Enclose(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "c" -> A!Closure(Ev.a, Ev.c)
    /\ Ev.w = Shown(reg'[Ev.c])
TPieces ==
    /\ IsEvent("pcs")
    /\ LET ps == CASE Ev.op = "u" -> A!UnionPieces(Ev.a, Ev.b)
                   [] Ev.op = "m" -> A!MinusPieces(Ev.a, Ev.b)
                   [] Ev.op = "c" -> A!ComplementPieces(Ev.a)
       IN  /\ Pieces(Ev.ws, ps)
           /\ IF Ev.k = 0 THEN A!Look ELSE A!Build(Ev.c, Decode(Ev.ws[Ev.k]))
TLook ==
    /\ IsEvent("look") /\ A!Look
    /\ LET r == reg[Ev.a]  w == Shown(r) IN
       IF r = NoRange
       THEN /\ Ev.lo = <<-1, 0>> /\ Ev.up = <<-1, 0>> /\ Ev.inf = 0 /\ Ev.sup = 0 /\ Ev.empty = 1 /\ Ev.full \in {0, -1}
            /\ ~Dense => Ev.size \in {-1, -2} /\ Ev.is = <<1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 0>>
       ELSE /\ Ev.lo = Code(RawLower(w)) /\ Ev.up = Code(RawUpper(w))
            /\ Ev.inf = w[2] /\ Ev.sup = w[3]
            /\ Ev.empty = 0 /\ Ev.full \in {B(r = <<1, KK>>), -1}
            /\ ~Dense => Ev.size \in {r[2] - r[1], -2} /\ Ev.is = <<0, B(r[1] = r[2]), B(r[1] < r[2]), 0, 0, 0, 0, 1, 1, 1, 0, 1, 1, 1, 0>>
THas == IsEvent("has") /\ A!Look /\ \A i \in 1..Len(Ev.vs) : Ev.ins[i] = B(A!Holds(Ev.a, Place(Ev.vs[i])))
TRel ==
    /\ IsEvent("rel") /\ A!Look
    /\ Ev.meets = B(A!Meet(Ev.a, Ev.b))
    /\ Ev.adj = B(A!Adjacent(Ev.a, Ev.b))
    /\ Ev.eq = B(reg[Ev.a] = reg[Ev.b])
    /\ Ev.eq = 1 => Ev.heq = 1
(* bulk operations of a sequence of raw intervals *)
TBulk ==
    /\ IsEvent("bulk") /\ A!Look
    /\ LET all == RLOf([i \in 1..Len(Ev.of) |-> RangeOf(Ev.of[i])])
           common == FoldLeft(LAMBDA r, w : RLIntersect(KK, r, RLSpan(RangeOf(w))), <<<<1, KK>>>>, Ev.of)
       IN  /\ Ev.enc = RawOf(RLHull(all))
           /\ Ev.int = RawOf(RLHull(common))
           /\ Pieces(Ev.uni, all)
(* normal and denormal form of any raw value over a finite type *)
TNorm ==
    /\ IsEvent("norm") /\ A!Look
    /\ LET r == ValuesOf(RangeOf(Ev.raw)) IN
       /\ Ev.n = Shown(r)
       /\ Ev.dn = Shown(r)              \* the denormal form, normalized
       /\ ValuesOf(RangeOf(Ev.dd)) = r  \* its points
       \* denormal form of the normal form, and of the value
       /\ IF r = NoRange THEN ValuesOf(RangeOf(Ev.nd)) = r ELSE Ev.nd = Ev.dd
       /\ r # NoRange =>
            Ev.dd = IF r[1] = 1 THEN (IF r[2] = N THEN <<kFull,0,0>> ELSE <<kUpTo, 0, r[2]+1>>)
                    ELSE IF r[2] = N THEN <<kUpFrom, r[1]-1, 0>> ELSE <<kOpen, r[1]-1, r[2]+1>>
TPoints ==      \* points of an interval from both ends
    /\ IsEvent("pts") /\ A!Look
    /\ LET r == reg[Ev.a] IN
       LET Item(i) == r[1] + i - 1 IN TraversalAtOK(Ev, r[2] - r[1] + 1, Item, 0)
(* bounds *)
TBound ==
    /\ IsEvent("bd") /\ A!Look
    /\ LET x == Bd(Ev.x)  y == Bd(Ev.y)
           least == IF LowCell(x) <= LowCell(y) THEN x ELSE y
           great == IF LowCell(x) >= LowCell(y) THEN x ELSE y
           low   == IF UppCell(x) <= UppCell(y) THEN x ELSE y
           high  == IF UppCell(x) >= UppCell(y) THEN x ELSE y
       IN  Ev.lu = Code(least) /\ Ev.gi = Code(great) /\ Ev.li = Code(low) /\ Ev.gu = Code(high)
(* markers at one point: 0 no marker *)
Name(n) == <<"LI", "LE", "PI", "PE", "UI", "UE">>[n]
Num(c) == CASE c = "no" -> 0 [] c = "LI" -> 1 [] c = "LE" -> 2 [] c = "PI" -> 3 [] c = "PE" -> 4 [] c = "UI" -> 5 [] c = "UE" -> 6
TTine ==
    /\ IsEvent("tine") /\ A!Look
    /\ LET x == Name(Ev.x)  y == Name(Ev.y)
           M(c) == IF c = "no" THEN <<0, 0>> ELSE <<Ev.p, Num(c)>> IN
       /\ Ev.u = M(T!UnionSpec(x, y)) /\ Ev.i = M(T!IntersectSpec(x, y)) /\ Ev.m = M(T!MinusSpec(x, y))
       /\ Ev.v = M(T!InvertSpec(x))
       /\ Ev.cmp = IF Ev.p < Ev.q THEN -1 ELSE IF Ev.p = Ev.q THEN 0 ELSE 1

Init == A!Init /\ l = 1
Next == TNew \/ TConv \/ TBin \/ TPieces \/ TLook \/ THas \/ TRel \/ TBulk \/ TNorm \/ TPoints \/ TBound \/ TTine
Spec == Init /\ [][Next]_<<reg, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
