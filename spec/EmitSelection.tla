---------------------------- MODULE EmitSelection -----------------------------
(***************************************************************************)
(* Observations of a selection over the chain 1..K in every state: the     *)
(* table of answers every query has to give.                               *)
(***************************************************************************)
EXTENDS Regions, TLC, Json
Row(x) == PrintT(ToJson(x))
B(x) == IF x THEN 1 ELSE 0
None == 0
Lower(S)    == IF S = {} THEN None ELSE Min(S)
Upper(S)    == IF S = {} THEN None ELSE Max(S)
(* the neighbouring point outside, none at the end of the type *)
Infimum(S)  == IF S = {} \/ Min(S) = 1 THEN None ELSE Min(S) - 1
Supremum(S) == IF S = {} \/ Max(S) = K THEN None ELSE Max(S) + 1
(* over a finite type every selection is bounded on both sides *)
Bounded == TRUE
HalfBounded == FALSE
Obs == Row(<<3, Mask(cur), Lower(cur), Upper(cur), Infimum(cur), Supremum(cur), Hull(cur),
             B(cur = {}), B(cur = Pos), B(Bounded), B(Bounded), B(Bounded), B(HalfBounded)>>)
(* infimum and supremum enclose the selected points and nothing is between *)
Tight ==
    cur # {} =>
      /\ Infimum(cur) # None => Infimum(cur) \notin cur /\ Infimum(cur) + 1 = Lower(cur)
      /\ Supremum(cur) # None => Supremum(cur) \notin cur /\ Supremum(cur) - 1 = Upper(cur)
===============================================================================
