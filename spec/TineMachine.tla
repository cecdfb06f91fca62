------------------------------ MODULE TineMachine -----------------------------
(***************************************************************************)
(* The life of the marker at one point while sets are edited around it:    *)
(* the code's tables step together with the three regions below, at and    *)
(* above the point.  Without a marker the three regions agree.             *)
(***************************************************************************)
EXTENDS Tines
VARIABLES tine, bits
vars == <<tine, bits>>
Bit == {0, 1}
Zip(f(_,_), x, y) == [i \in 1..3 |-> f(x[i], y[i])]
Even3 == {<<0,0,0>>, <<1,1,1>>}

Init == tine = "no" /\ bits \in Even3
Meet3(c, f(_,_), tab) ==      \* merge with another marker
    /\ tine # "no" /\ tine' = tab[tine][c] /\ bits' = Zip(f, bits, Bits[c])
DoUnion(c)     == Meet3(c, OrBit, UnionTab)
DoIntersect(c) == Meet3(c, AndBit, IntersectTab)
DoMinus(c)     == Meet3(c, SubBit, MinusTab)
DoInvert       == tine # "no" /\ tine' = InvertTab[tine] /\ bits' = [i \in 1..3 |-> Not(bits[i])]
(* a marker appears where nothing was marked: placed outside, cut inside   *)
Place(c)       == tine = "no" /\ bits = <<0,0,0>> /\ tine' = c /\ bits' = Bits[c]
Cut(c)         == tine = "no" /\ bits = <<1,1,1>> /\ tine' = InvertTab[c] /\ bits' = Zip(SubBit, bits, Bits[c])
Flip           == tine = "no" /\ UNCHANGED tine /\ bits' = [i \in 1..3 |-> Not(bits[i])]
Next == (\E c \in Codes : DoUnion(c) \/ DoIntersect(c) \/ DoMinus(c) \/ Place(c) \/ Cut(c)) \/ DoInvert \/ Flip
Spec == Init /\ [][Next]_vars

Faithful == tine = CodeOf(bits)
Unmarked == tine = "no" <=> bits \in Even3
Laws ==
    tine # "no" =>
      /\ InvertTab[InvertTab[tine]] = tine
      /\ IsLowerSpec(tine) <=> tine \in {"LI", "LE", "PE"}
      /\ IsUpperSpec(tine) <=> tine \in {"UI", "UE", "PE"}
      /\ IsPointIncSpec(tine) <=> tine = "PI"
      /\ IsPointExcSpec(tine) <=> tine = "PE"
      /\ \A c \in Codes :
           /\ UnionTab[tine][c] = UnionTab[c][tine]
           /\ IntersectTab[tine][c] = IntersectTab[c][tine]
           /\ MinusTab[tine][c] = IntersectTab[tine][InvertTab[c]]
           /\ UnionTab[tine][c] # "no" => InvertTab[UnionTab[tine][c]] = IntersectTab[InvertTab[tine]][InvertTab[c]]
===============================================================================
