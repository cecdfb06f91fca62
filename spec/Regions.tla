------------------------------- MODULE Regions --------------------------------
(***************************************************************************)
(* The abstract machine behind every set type of the library.              *)
(*                                                                         *)
(* A line of K consecutive positions and a current set of positions that   *)
(* is edited with ranges.  Two instances of it are what the library        *)
(* promises:                                                               *)
(*   - Selection over a finite type: positions are the values of the type  *)
(*     (or blocks of consecutive values), ranges are intervals;            *)
(*   - TineTree over any ordered type with N chosen values: positions are  *)
(*     the 2N+1 cells of the order (the N values and the N+1 gaps around   *)
(*     and between them), ranges are raw intervals.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANT K
ASSUME K \in Nat /\ K > 0

Pos     == 1..K
NoRange == <<1, 0>>
Ranges  == {r \in Pos \X Pos : r[1] <= r[2]}
Args    == Ranges \cup {NoRange}
Span(r) == r[1]..r[2]
AllSets == SUBSET Pos

(* The unique ascending decomposition into maximal ranges. *)
RunStarts(S) == {p \in S : p-1 \notin S}
RunEnds(S)   == {p \in S : p+1 \notin S}
Runs(S) ==
    LET a == SetToSortSeq(RunStarts(S), <)
        b == SetToSortSeq(RunEnds(S), <)
    IN  [i \in 1..Len(a) |-> <<a[i], b[i]>>]

Hull(S) == IF S = {} THEN NoRange ELSE <<Min(S), Max(S)>>

SpanAll(seq) == UNION {Span(seq[i]) : i \in 1..Len(seq)}

(* A sequence of ranges is a decomposition when it is ascending, non-empty *)
(* ranges only, and neighbours leave at least one position between them.   *)
IsDecomposition(seq) ==
    /\ \A i \in 1..Len(seq) : seq[i] \in Ranges
    /\ \A i \in 1..Len(seq)-1 : seq[i][2] + 1 < seq[i+1][1]

(* The pure operations. *)
UnionOf(S, T)     == S \cup T
IntersectOf(S, T) == S \cap T
MinusOf(S, T)     == S \ T
ComplementOf(S)   == Pos \ S
Meets(S, T)       == S \cap T # {}

-------------------------------------------------------------------------------
VARIABLE cur

Init == cur = {}

UnionStep(r)     == cur' = UnionOf(cur, Span(r))
IntersectStep(r) == cur' = IntersectOf(cur, Span(r))
MinusStep(r)     == cur' = MinusOf(cur, Span(r))
ComplementStep   == cur' = ComplementOf(cur)
ResetStep(r)     == cur' = Span(r)      \* a fresh value built from an interval
ReloadStep       == cur' = cur          \* saved and loaded back

Next ==
    \/ \E r \in Args : UnionStep(r) \/ IntersectStep(r) \/ MinusStep(r) \/ ResetStep(r)
    \/ ComplementStep
    \/ ReloadStep

Spec == Init /\ [][Next]_cur

-------------------------------------------------------------------------------
(* Properties of the design itself. *)
TypeOK == cur \in AllSets

(* Runs is a decomposition of exactly the current set (RegionLaws checks *)
(* that it is the only one, and the algebra).                           *)
RunsExact == IsDecomposition(Runs(cur)) /\ SpanAll(Runs(cur)) = cur

(* Every set is reachable: the replayed table covers the whole type. *)
Mask(S) == FoldSet(LAMBDA x, a : a + 2^(x-1), 0, S)
SetOf(m) == {p \in Pos : (m \div 2^(p-1)) % 2 = 1}
===============================================================================
