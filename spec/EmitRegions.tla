----------------------------- MODULE EmitRegions ------------------------------
(***************************************************************************)
(* The complete transition table of Regions, printed while TLC explores    *)
(* it: one row per state with the successor of every action.  Sets are     *)
(* printed as bit masks (bit p-1 for position p).                          *)
(***************************************************************************)
EXTENDS Regions, TLC, Json
CONSTANT Pairs          \* TRUE: also the binary operations with every set

ArgSeq == SetToSortSeq(Args, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
NArgs == Len(ArgSeq)
Row(x) == PrintT(ToJson(x))

ASSUME Row(<<0, K, [i \in 1..NArgs |-> ArgSeq[i]]>>)

(* successors under the edit actions, in argument order *)
EmitEdits ==
    Row(<<1, Mask(cur), Runs(cur), Hull(cur), Mask(ComplementOf(cur)),
          [i \in 1..NArgs |-> Mask(UnionOf(cur, Span(ArgSeq[i])))],
          [i \in 1..NArgs |-> Mask(IntersectOf(cur, Span(ArgSeq[i])))],
          [i \in 1..NArgs |-> Mask(MinusOf(cur, Span(ArgSeq[i])))],
          [i \in 1..NArgs |-> Mask(Span(ArgSeq[i]))]>>)
(* operations with the sets of masks 0, 1, ..., 2^K-1 *)
EmitPairs ==
    Pairs => Row(<<2, Mask(cur),
          [j \in 1..2^K |-> Mask(UnionOf(cur, SetOf(j-1)))],
          [j \in 1..2^K |-> Mask(IntersectOf(cur, SetOf(j-1)))],
          [j \in 1..2^K |-> Mask(MinusOf(cur, SetOf(j-1)))],
          [j \in 1..2^K |-> IF Meets(cur, SetOf(j-1)) THEN 1 ELSE 0]>>)
===============================================================================
