------------------------------ MODULE EmitCursor ------------------------------
(* The graph of Cursor for lists of up to MaxItems items. *)
EXTENDS Cursor, TLC, Json
CONSTANT MaxItems
Init == \E k \in 0..MaxItems : Start(k)
Next == StepNext \/ StepBack
Spec == Init /\ [][Next]_<<n, f, b, out>>
Emit == PrintT(ToJson(<<50, n, f, b, IF f+b < n THEN f+1 ELSE 0, IF f+b < n THEN n-b ELSE 0>>))
===============================================================================
