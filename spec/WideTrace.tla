------------------------------- MODULE WideTrace ------------------------------
(***************************************************************************)
(* PoolTrace over lines of tens of thousands of positions: whole 16-bit    *)
(* types, trees over thousands of values.  The slots hold run lists        *)
(* (RunPool, shown to refine Pool); the lines are as for PoolTrace, but a  *)
(* point traversal logs only the calls made.                               *)
(***************************************************************************)
EXTENDS Cells, Traversal, RunLists, TLCExt, Json, IOUtils
CONSTANT Dense
KK == IF Dense THEN NCells ELSE N
Slots == 1..4
VARIABLES slot, l
Pl == INSTANCE RunPool WITH K <- KK, Slots <- Slots, list <- slot
Log == ndJsonDeserialize(IOEnv.TRACE)
Bad == <<0, 0>>
Decode(w) ==
    IF Dense THEN (IF WellFormed(w) THEN RangeOf(w) ELSE Bad)
    ELSE CASE w[1] = kEmpty -> <<1, 0>>
           [] w[1] = kPoint -> IF w[2] = w[3] THEN <<w[2], w[2]>> ELSE Bad
           [] w[1] = kClosed -> IF w[2] < w[3] THEN <<w[2], w[3]>> ELSE Bad
           [] OTHER -> Bad
DecodeAll(ws) == [i \in 1..Len(ws) |-> Decode(ws[i])]
Encode(r) == IF Dense THEN RawOf(r)
             ELSE IF r[1] > r[2] THEN <<kEmpty,0,0>> ELSE IF r[1] = r[2] THEN <<kPoint, r[1], r[2]>> ELSE <<kClosed, r[1], r[2]>>
Shows(ws, v) == Len(ws) = Len(v) /\ \A i \in 1..Len(v) : ws[i] = Encode(v[i])
B(x) == IF x THEN 1 ELSE 0
IsEvent(e) == l <= Len(Log) /\ Log[l].e = e /\ l' = l + 1
Ev == Log[l]

TEdit ==
    /\ IsEvent("edit")
    /\ LET r == Decode(Ev.w) IN
       /\ r # Bad
       /\ CASE Ev.op = "u" -> Pl!EditUnion(Ev.s, r)
            [] Ev.op = "i" -> Pl!EditIntersect(Ev.s, r)
            [] Ev.op = "m" -> Pl!EditMinus(Ev.s, r)
    /\ Shows(Ev.runs, slot'[Ev.s])
TBin ==
    /\ IsEvent("bin")
    /\ CASE Ev.op = "u" -> Pl!Union(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "i" -> Pl!Intersect(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "m" -> Pl!Minus(Ev.a, Ev.b, Ev.c)
    /\ Shows(Ev.runs, slot'[Ev.c])
TComp == IsEvent("comp") /\ Pl!Complement(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
TColl == IsEvent("coll") /\ Pl!Collect(Ev.c, DecodeAll(Ev.ws)) /\ Shows(Ev.runs, slot'[Ev.c])
TExt  == IsEvent("ext") /\ Pl!Extend(Ev.s, DecodeAll(Ev.ws)) /\ Shows(Ev.runs, slot'[Ev.s])
TCopy == IsEvent("copy") /\ Pl!Copy(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
TSave == IsEvent("save") /\ Ev.eq = 1 /\ Pl!Copy(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
TCmp ==
    /\ IsEvent("cmp") /\ Pl!Look
    /\ Ev.eq = B(slot[Ev.a] = slot[Ev.b])
    /\ Ev.heq = 1 \/ slot[Ev.a] # slot[Ev.b]
    /\ Ev.meets = -1 \/ Ev.meets = B(Pl!Meet(Ev.a, Ev.b))
    /\ Dense \/ Ev.meets >= 0
THas ==
    /\ IsEvent("has") /\ Pl!Look
    /\ \A i \in 1..Len(Ev.vs) : Ev.ins[i] = B(RLHas(slot[Ev.s], Ev.vs[i]))
Code(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
(* exclusive bounds move out to their value *)
ClosureOf(r) == IF r[1] > r[2] \/ ~Dense THEN r
                ELSE <<IF r[1] % 2 = 1 /\ r[1] # 1 THEN r[1] - 1 ELSE r[1], IF r[2] % 2 = 1 /\ r[2] # KK THEN r[2] + 1 ELSE r[2]>>
THull ==
    /\ IsEvent("hull") /\ Pl!Look
    /\ LET r == RLHull(slot[Ev.s])  w == Encode(r)  none == slot[Ev.s] = <<>> IN
       /\ Ev.w = w
       /\ Ev.clo = Encode(ClosureOf(r))
       /\ Ev.empty = B(none)
       /\ Ev.full = B(slot[Ev.s] = <<<<1, KK>>>>)
       /\ Ev.lo = IF none THEN <<-1, 0>> ELSE Code(RawLower(w))
       /\ Ev.up = IF none THEN <<-1, 0>> ELSE Code(RawUpper(w))
       /\ ~Dense => /\ Ev.inf = IF none THEN 0 ELSE r[1] - 1
                    /\ Ev.sup = IF none \/ r[2] = KK THEN 0 ELSE r[2] + 1
                    /\ Ev.bnd = <<1, 1, 1, 0>>
TWalk ==
    /\ IsEvent("walk") /\ Pl!Look
    /\ LET v == slot[Ev.s]  At(i) == Encode(v[i]) IN TraversalAtOK(Ev, Len(v), At, <<-1, 0, 0>>)
TPts ==
    /\ IsEvent("pts") /\ Pl!Look
    /\ LET v == slot[Ev.s]  before == RLBefore(v)  At(k) == RLAt(v, before, k) IN TraversalAtOK(Ev, RLCount(v), At, 0)

Init == Pl!Init /\ l = 1
Next == TEdit \/ TBin \/ TComp \/ TColl \/ TExt \/ TCopy \/ TSave \/ TCmp \/ THas \/ THull \/ TWalk \/ TPts
Spec == Init /\ [][Next]_<<slot, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
