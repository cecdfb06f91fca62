-------------------------------- MODULE Tines ---------------------------------
(***************************************************************************)
(* Boundary markers (src/tine.rs).                                         *)
(*                                                                         *)
(* Meaning: a marker at a point tells for the three regions just below, at *)
(* and just above the point whether they are inside: three bits.  The code *)
(* has six finite markers                                                  *)
(*     LI Lower(Include)  LE Lower(Exclude)  PI Point(Include)             *)
(*     PE Point(Exclude)  UI Upper(Include)  UE Upper(Exclude)             *)
(* "no" is the absence of a marker: nothing changes across the point.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"LI", "LE", "PI", "PE", "UI", "UE"}

Bits == [LI |-> <<0,1,1>>, LE |-> <<0,0,1>>, PI |-> <<0,1,0>>,
         PE |-> <<1,0,1>>, UI |-> <<1,1,0>>, UE |-> <<1,0,0>>]
CodeOf(b) == IF \E c \in Codes : Bits[c] = b THEN CHOOSE c \in Codes : Bits[c] = b ELSE "no"

OrBit(x, y)  == IF x = 1 \/ y = 1 THEN 1 ELSE 0
AndBit(x, y) == IF x = 1 /\ y = 1 THEN 1 ELSE 0
SubBit(x, y) == IF x = 1 /\ y = 0 THEN 1 ELSE 0
Not(x)       == 1 - x

UnionSpec(a, b)     == CodeOf([i \in 1..3 |-> OrBit(Bits[a][i], Bits[b][i])])
IntersectSpec(a, b) == CodeOf([i \in 1..3 |-> AndBit(Bits[a][i], Bits[b][i])])
MinusSpec(a, b)     == CodeOf([i \in 1..3 |-> SubBit(Bits[a][i], Bits[b][i])])
InvertSpec(a)       == CodeOf([i \in 1..3 |-> Not(Bits[a][i])])

(* A lower bound is where the inside begins just at or above the point, an *)
(* upper bound where it ends; an excluded point is both.                   *)
IsLowerSpec(a)   == Bits[a][3] = 1
IsUpperSpec(a)   == Bits[a][1] = 1
IsPointIncSpec(a) == Bits[a] = <<0,1,0>>
IsPointExcSpec(a) == Bits[a] = <<1,0,1>>

(* The tables of the code, one row per left operand. *)
UnionTab == [
  LI |-> [LI |-> "LI", LE |-> "LI", PI |-> "LI", PE |-> "no", UI |-> "no", UE |-> "no"],
  LE |-> [LI |-> "LI", LE |-> "LE", PI |-> "LI", PE |-> "PE", UI |-> "no", UE |-> "PE"],
  PI |-> [LI |-> "LI", LE |-> "LI", PI |-> "PI", PE |-> "no", UI |-> "UI", UE |-> "UI"],
  PE |-> [LI |-> "no", LE |-> "PE", PI |-> "no", PE |-> "PE", UI |-> "no", UE |-> "PE"],
  UI |-> [LI |-> "no", LE |-> "no", PI |-> "UI", PE |-> "no", UI |-> "UI", UE |-> "UI"],
  UE |-> [LI |-> "no", LE |-> "PE", PI |-> "UI", PE |-> "PE", UI |-> "UI", UE |-> "UE"]]
IntersectTab == [
  LI |-> [LI |-> "LI", LE |-> "LE", PI |-> "PI", PE |-> "LE", UI |-> "PI", UE |-> "no"],
  LE |-> [LI |-> "LE", LE |-> "LE", PI |-> "no", PE |-> "LE", UI |-> "no", UE |-> "no"],
  PI |-> [LI |-> "PI", LE |-> "no", PI |-> "PI", PE |-> "no", UI |-> "PI", UE |-> "no"],
  PE |-> [LI |-> "LE", LE |-> "LE", PI |-> "no", PE |-> "PE", UI |-> "UE", UE |-> "UE"],
  UI |-> [LI |-> "PI", LE |-> "no", PI |-> "PI", PE |-> "UE", UI |-> "UI", UE |-> "UE"],
  UE |-> [LI |-> "no", LE |-> "no", PI |-> "no", PE |-> "UE", UI |-> "UE", UE |-> "UE"]]
MinusTab == [
  LI |-> [LI |-> "no", LE |-> "PI", PI |-> "LE", PE |-> "PI", UI |-> "LE", UE |-> "LI"],
  LE |-> [LI |-> "no", LE |-> "no", PI |-> "LE", PE |-> "no", UI |-> "LE", UE |-> "LE"],
  PI |-> [LI |-> "no", LE |-> "PI", PI |-> "no", PE |-> "PI", UI |-> "no", UE |-> "PI"],
  PE |-> [LI |-> "UE", LE |-> "UE", PI |-> "PE", PE |-> "no", UI |-> "LE", UE |-> "LE"],
  UI |-> [LI |-> "UE", LE |-> "UI", PI |-> "UE", PE |-> "PI", UI |-> "no", UE |-> "PI"],
  UE |-> [LI |-> "UE", LE |-> "UE", PI |-> "UE", PE |-> "no", UI |-> "no", UE |-> "no"]]
InvertTab == [LI |-> "UE", LE |-> "UI", PI |-> "PE", PE |-> "PI", UI |-> "LE", UE |-> "LI"]

TablesAgree ==
    \A a \in Codes :
        /\ InvertTab[a] = InvertSpec(a)
        /\ InvertTab[InvertTab[a]] = a
        /\ \A b \in Codes :
            /\ UnionTab[a][b] = UnionSpec(a, b)
            /\ IntersectTab[a][b] = IntersectSpec(a, b)
            /\ MinusTab[a][b] = MinusSpec(a, b)
===============================================================================
