------------------------------- MODULE Traversal ------------------------------
(***************************************************************************)
(* A whole traversal of a list of n items at once, for judging recorded    *)
(* traversals: what a sequence of calls returns.  A call is <<side, skip>> *)
(* - nth(skip) on side 0 (front), nth_back(skip) on side 1, next and       *)
(* next_back when skip = 0 - or <<2, 0>>, last().  TraversalMachine checks *)
(* that this is what stepping Cursor gives.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* state of the cursor before each call and the index of the item returned *)
TrStep(n, s, c) ==
    LET f == s[1]  b == s[2]  k == c[2]  enough == f + b + k < n IN
    CASE c[1] = 0 -> IF enough THEN <<f + k + 1, b, f + k + 1>> ELSE <<n - b, b, 0>>
      [] c[1] = 1 -> IF enough THEN <<f, b + k + 1, n - b - k>> ELSE <<f, n - f, 0>>
      [] c[1] = 2 -> <<n - b, b, IF f + b < n THEN n - b ELSE 0>>
(* <<f, b, index>> after each call, starting before the first *)
TrStates(n, calls) ==
    FoldLeft(LAMBDA ss, c : Append(ss, TrStep(n, ss[Len(ss)], c)), <<<<0, 0, 0>>>>, calls)

(* A recorded traversal: calls, what they returned, the size hint <<lower, *)
(* upper or -1>> before every call, and how many items count() found left  *)
(* in the end (-1: not asked).                                             *)
TraversalAtOK(t, n, At(_), none) ==
    LET ss == TrStates(n, t.d)
    IN  /\ Len(t.out) = Len(t.d) /\ Len(t.hint) = Len(t.d)
        /\ \A i \in 1..Len(t.d) :
             /\ t.out[i] = IF ss[i+1][3] = 0 THEN none ELSE At(ss[i+1][3])
             /\ LET left == n - ss[i][1] - ss[i][2] IN
                t.hint[i][1] <= left /\ (t.hint[i][2] = -1 \/ t.hint[i][2] >= left)
        /\ LET e == ss[Len(ss)] IN t.cnt \in {-1, n - e[1] - e[2]}
TraversalOK(t, items, none) == LET At(i) == items[i] IN TraversalAtOK(t, Len(items), At, none)
===============================================================================
