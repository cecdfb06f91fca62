------------------------------- MODULE RunLists --------------------------------
(***************************************************************************)
(* The sets of Regions written as their decompositions: ascending lists of *)
(* ranges with at least one position between neighbours.  For judging runs *)
(* over lines too long for explicit sets; RunPool checks the operators     *)
(* against Regions.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

IsRunList(K, s) ==
    /\ \A i \in 1..Len(s) : 1 <= s[i][1] /\ s[i][1] <= s[i][2] /\ s[i][2] <= K
    /\ \A i \in 1..Len(s)-1 : s[i][2] + 1 < s[i+1][1]

Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Larger(x, y) == IF x > y THEN x ELSE y

(* any list of ranges (empty ones among them) as a run list *)
RLOf(s) ==
    LET sorted == SetToSortSeq({s[i] : i \in {j \in 1..Len(s) : s[j][1] <= s[j][2]}}, Before)
        \* the current range and the finished ones
        step(acc, r) == IF acc[1] = <<>> THEN <<r, acc[2]>>
                        ELSE IF r[1] <= acc[1][2] + 1 THEN <<<<acc[1][1], Larger(acc[1][2], r[2])>>, acc[2]>>
                        ELSE <<r, Append(acc[2], acc[1])>>
        end == FoldLeft(step, <<<<>>, <<>>>>, sorted)
    IN  IF end[1] = <<>> THEN <<>> ELSE Append(end[2], end[1])

RLUnion(a, b) == RLOf(a \o b)
RLComplement(K, a) ==
    LET n == Len(a)
        low(i) == IF i = 0 THEN 1 ELSE a[i][2] + 1
        upp(i) == IF i = n THEN K ELSE a[i+1][1] - 1
        all == [j \in 1..n+1 |-> <<low(j-1), upp(j-1)>>]
    IN  SelectSeq(all, LAMBDA r : r[1] <= r[2])
RLIntersect(K, a, b) == RLComplement(K, RLUnion(RLComplement(K, a), RLComplement(K, b)))
RLMinus(K, a, b)     == RLIntersect(K, a, RLComplement(K, b))
RLHas(a, p)          == \E i \in 1..Len(a) : a[i][1] <= p /\ p <= a[i][2]
RLHull(a)            == IF a = <<>> THEN <<1, 0>> ELSE <<a[1][1], a[Len(a)][2]>>
RLSpan(r)            == IF r[1] <= r[2] THEN <<r>> ELSE <<>>

(* how many positions there are before each run, and in all *)
RLBefore(a) == FoldLeft(LAMBDA s, r : Append(s, s[Len(s)] + r[2] - r[1] + 1), <<0>>, a)
RLCount(a)  == LET b == RLBefore(a) IN b[Len(b)]
(* the k-th position; `before` is RLBefore(a) *)
RLAt(a, before, k) == LET i == CHOOSE j \in 1..Len(a) : before[j] < k /\ k <= before[j+1] IN a[i][1] + (k - before[i] - 1)
===============================================================================
