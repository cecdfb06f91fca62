------------------------------- MODULE AllRaws --------------------------------
(***************************************************************************)
(* All bounds and raw intervals over the N values, as sets (kept apart     *)
(* from Cells: trace validation runs with thousands of values and never    *)
(* needs them).                                                            *)
(***************************************************************************)
EXTENDS Cells

Bounds == {Inc(v) : v \in Vals} \cup {Exc(v) : v \in Vals} \cup {Inf}

(* Every enum value a caller can write down, well formed or not. *)
AnyRaw ==
    {<<kEmpty,0,0>>, <<kFull,0,0>>}
    \cup {<<kPoint,v,v>> : v \in Vals}
    \cup {<<k,v,w>> : k \in {kOpen,kLeftOpen,kRightOpen,kClosed}, v \in Vals, w \in Vals}
    \cup {<<k,v,0>> : k \in {kUpFrom,kFrom}, v \in Vals}
    \cup {<<k,0,v>> : k \in {kUpTo,kTo}, v \in Vals}

Raws == {w \in AnyRaw : WellFormed(w)}
===============================================================================
