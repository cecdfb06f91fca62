---------------------------- MODULE TraversalMachine --------------------------
(***************************************************************************)
(* Traversal, which judges a recorded traversal at once, against stepping  *)
(* Cursor call by call; and nth against the same number of single steps.   *)
(***************************************************************************)
EXTENDS Traversal, FiniteSets
CONSTANTS MaxItems, MaxCalls, MaxSkip
VARIABLES n, f, b, out, calls, outs
vars == <<n, f, b, out, calls, outs>>
C == INSTANCE Cursor
Init == (\E k \in 0..MaxItems : C!Start(k)) /\ calls = <<>> /\ outs = <<>>
Did(c) == calls' = Append(calls, c) /\ outs' = Append(outs, out')
Next ==
    /\ Len(calls) < MaxCalls
    /\ \/ \E k \in 0..MaxSkip : C!SkipNext(k) /\ Did(<<0, k>>)
       \/ \E k \in 0..MaxSkip : C!SkipBack(k) /\ Did(<<1, k>>)
       \/ C!TakeLast /\ Did(<<2, 0>>)
Spec == Init /\ [][Next]_vars

Agrees ==
    LET ss == TrStates(n, calls) IN
    /\ [i \in 1..Len(calls) |-> ss[i+1][3]] = outs
    /\ ss[Len(ss)] = <<f, b, IF outs = <<>> THEN 0 ELSE outs[Len(outs)]>>
(* nth(k) is k + 1 times next; last is next until nothing is left *)
Single(side, k) == [i \in 1..k+1 |-> <<side, 0>>]
After(cs) == TrStates(n, calls \o cs)
NthOK ==
    \A k \in 0..MaxSkip, side \in {0, 1} :
        Last(After(<<<<side, k>>>>)) = Last(After(Single(side, k)))
LastOK == LET l == After(Single(0, n)) IN
    /\ Last(After(<<<<2, 0>>>>))[1] = Last(l)[1]
    /\ Last(After(<<<<2, 0>>>>))[3] = IF f + b < n THEN n - b ELSE 0
CursorOK == C!CursorOK
Fused == C!Fused
===============================================================================
