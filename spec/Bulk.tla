--------------------------------- MODULE Bulk ---------------------------------
(***************************************************************************)
(* The bulk operations, as a machine that receives a sequence of raw       *)
(* intervals: after every sequence the folds of the code equal the bulk    *)
(* meaning.  Every sequence up to length MaxLen is printed with its        *)
(* results.                                                                *)
(***************************************************************************)
EXTENDS RawAlgebra, TLC, Json
CONSTANT MaxLen
VARIABLE seq
Init == seq = <<>>
Next == Len(seq) < MaxLen /\ \E w \in Raws : seq' = Append(seq, w)
Spec == Init /\ [][Next]_seq
Agree == BulkAgreeOn(seq)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : RangeOf(x)[1] < RangeOf(y)[1])
Emit == PrintT(ToJson(<<14, seq, EncloseAllSpec(seq), IntersectAllSpec(seq), Sorted(UnionAllSpec(seq))>>))
===============================================================================
