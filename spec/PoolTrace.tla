------------------------------- MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Trace validation: is a recorded run of the real library a behaviour of  *)
(* Pool?  Every line is one public call on one of a few slots, with its    *)
(* arguments and everything it returned; after a change the whole interval *)
(* decomposition of the changed value is logged.  Dense traces are bound   *)
(* trees over N values (positions are cells), the others selections over   *)
(* a finite type of N values (positions are the values).                   *)
(***************************************************************************)
EXTENDS Cells, Traversal, TLC, TLCExt, Json, IOUtils, FiniteSetsExt
CONSTANT Dense
KK == IF Dense THEN NCells ELSE N
Slots == 1..4
VARIABLES slot, l
Pl == INSTANCE Pool WITH K <- KK, Slots <- Slots, slot <- slot
Rg == INSTANCE Regions WITH K <- KK, cur <- {}
Rs == INSTANCE Registers WITH K <- KK, reg <- {}
Log == ndJsonDeserialize(IOEnv.TRACE)

(* A logged interval [kind, left, right] as a range of positions; an       *)
(* interval that is not in the form the library promises is no range.      *)
Bad == <<0, 0>>
Decode(w) ==
    IF Dense THEN (IF WellFormed(w) THEN RangeOf(w) ELSE Bad)
    ELSE CASE w[1] = kEmpty -> <<1, 0>>
           [] w[1] = kPoint -> IF w[2] = w[3] THEN <<w[2], w[2]>> ELSE Bad
           [] w[1] = kClosed -> IF w[2] < w[3] THEN <<w[2], w[3]>> ELSE Bad
           [] OTHER -> Bad
DecodeAll(ws) == [i \in 1..Len(ws) |-> Decode(ws[i])]
Encode(r) == IF Dense THEN RawOf(r)
             ELSE IF r[1] > r[2] THEN <<kEmpty,0,0>> ELSE IF r[1] = r[2] THEN <<kPoint, r[1], r[2]>> ELSE <<kClosed, r[1], r[2]>>

(* the logged decomposition is the decomposition of S *)
Shows(ws, S) ==
    LET rs == DecodeAll(ws) IN Rg!IsDecomposition(rs) /\ Rg!SpanAll(rs) = S
B(x) == IF x THEN 1 ELSE 0

IsEvent(e) == l <= Len(Log) /\ Log[l].e = e /\ l' = l + 1
Ev == Log[l]

TEdit ==
    /\ IsEvent("edit")
    /\ LET r == Decode(Ev.w) IN
       /\ r # Bad
       /\ CASE Ev.op = "u" -> Pl!EditUnion(Ev.s, r)
            [] Ev.op = "i" -> Pl!EditIntersect(Ev.s, r)
            [] Ev.op = "m" -> Pl!EditMinus(Ev.s, r)
    /\ Shows(Ev.runs, slot'[Ev.s])
TBin ==
    /\ IsEvent("bin")
    /\ CASE Ev.op = "u" -> Pl!Union(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "i" -> Pl!Intersect(Ev.a, Ev.b, Ev.c)
         [] Ev.op = "m" -> Pl!Minus(Ev.a, Ev.b, Ev.c)
    /\ Shows(Ev.runs, slot'[Ev.c])
TComp == IsEvent("comp") /\ Pl!Complement(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
TColl == IsEvent("coll") /\ Pl!Collect(Ev.c, DecodeAll(Ev.ws)) /\ Shows(Ev.runs, slot'[Ev.c])
TExt  == IsEvent("ext") /\ Pl!Extend(Ev.s, DecodeAll(Ev.ws)) /\ Shows(Ev.runs, slot'[Ev.s])
TCopy == IsEvent("copy") /\ Pl!Copy(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
(* saved, loaded, and put in place of another value *)
TSave == IsEvent("save") /\ Ev.eq = 1 /\ Pl!Copy(Ev.a, Ev.c) /\ Shows(Ev.runs, slot'[Ev.c])
TCmp ==
    /\ IsEvent("cmp") /\ Pl!Look
    /\ Ev.eq = B(slot[Ev.a] = slot[Ev.b])
    /\ Ev.heq = 1 \/ slot[Ev.a] # slot[Ev.b]
    /\ Ev.meets \in {-1, B(Rg!Meets(slot[Ev.a], slot[Ev.b]))}
THas ==
    /\ IsEvent("has") /\ Pl!Look
    /\ \A i \in 1..Len(Ev.vs) :
         Ev.ins[i] = B(Ev.vs[i] \in slot[Ev.s])      \* positions: the gaps of an order too
(* bounds come as <<1 Inc | 2 Exc | 0 Inf | -1 none, v>> *)
Code(b) == <<CASE IsInc(b) -> 1 [] IsExc(b) -> 2 [] IsInf(b) -> 0, b[2]>>
THull ==
    /\ IsEvent("hull") /\ Pl!Look
    /\ LET S == slot[Ev.s]  r == Rg!Hull(S)  w == Encode(r)  none == S = {} IN
       /\ Ev.w = w
       /\ Ev.clo = Encode(Rs!ClosureOf(r))
       /\ Ev.empty = B(none)
       /\ Ev.full = B(S = 1..KK)
       /\ Ev.lo = IF none THEN <<-1, 0>> ELSE Code(RawLower(w))
       /\ Ev.up = IF none THEN <<-1, 0>> ELSE Code(RawUpper(w))
       \* selections only: the neighbouring excluded points, 0 for none;
       \* bounded, left, right, never half bounded
       /\ Ev.inf \in {-1, IF none THEN 0 ELSE Min(S) - 1}
       /\ Ev.sup \in {-1, IF none \/ Max(S) = KK THEN 0 ELSE Max(S) + 1}
       /\ ~Dense => Ev.inf >= 0 /\ Ev.sup >= 0 /\ Ev.bnd = <<1, 1, 1, 0>>
TWalk ==
    /\ IsEvent("walk") /\ Pl!Look
    /\ LET runs == Rg!Runs(slot[Ev.s]) IN
       TraversalOK(Ev, [i \in 1..Len(runs) |-> Encode(runs[i])], <<-1, 0, 0>>)
TPts ==
    /\ IsEvent("pts") /\ Pl!Look
    /\ TraversalOK(Ev, SetToSortSeq(slot[Ev.s], <), 0)

Init == Pl!Init /\ l = 1
Next == TEdit \/ TBin \/ TComp \/ TColl \/ TExt \/ TCopy \/ TSave \/ TCmp \/ THas \/ THull \/ TWalk \/ TPts
Spec == Init /\ [][Next]_<<slot, l>>
(* acceptance: every line was explained *)
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
