-------------------------------- MODULE Cursor --------------------------------
(***************************************************************************)
(* A double-ended traversal of a list of n items: what every iterator of   *)
(* the library promises.  f items have been taken from the front and b     *)
(* from the back; out is the index of the item just returned, 0 for none.  *)
(***************************************************************************)
EXTENDS Integers
VARIABLES n, f, b, out

Start(k) == n = k /\ f = 0 /\ b = 0 /\ out = 0
StepNext ==
    /\ IF f + b < n THEN f' = f + 1 /\ out' = f + 1 ELSE f' = f /\ out' = 0
    /\ UNCHANGED <<n, b>>
StepBack ==
    /\ IF f + b < n THEN b' = b + 1 /\ out' = n - b ELSE b' = b /\ out' = 0
    /\ UNCHANGED <<n, f>>

(* nth(k), nth_back(k): k items are passed over, the next one is returned; *)
(* with too few left the traversal ends there.  A search (find, rfind,     *)
(* position, any, all) that stops at the item k places on moves likewise,  *)
(* and so does taking k items by reference and then one more.              *)
SkipNext(k) ==
    /\ IF f + b + k < n THEN f' = f + k + 1 /\ out' = f + k + 1 ELSE f' = n - b /\ out' = 0
    /\ UNCHANGED <<n, b>>
SkipBack(k) ==
    /\ IF f + b + k < n THEN b' = b + k + 1 /\ out' = n - b - k ELSE b' = n - f /\ out' = 0
    /\ UNCHANGED <<n, f>>
(* last(): the rest is passed over but for its last item.  Items in        *)
(* ascending order have their greatest there (max) and their least where   *)
(* next() finds it (min).                                                  *)
TakeLast ==
    /\ out' = IF f + b < n THEN n - b ELSE 0
    /\ f' = n - b
    /\ UNCHANGED <<n, b>>
Left == n - f - b

CursorOK == f + b <= n /\ out \in 0..n
(* once the ends have met nothing is returned any more (fused) *)
Fused == [][f + b = n => out' = 0]_<<n, f, b, out>>
===============================================================================
