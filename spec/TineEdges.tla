------------------------------ MODULE TineEdges -------------------------------
(***************************************************************************)
(* What an edit of a TineTree puts at its two ends, as src/tine_tree.rs    *)
(* decides it: from the markers found there (t and s, "no" if none), those *)
(* of the given interval (lc, uc), and whether the markers before and      *)
(* after the stretch taken out are lower and upper bounds.  Every          *)
(* unreachable! and debug_assert! of the code makes ok false.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
T == INSTANCE Tines

IsLower(c) == c \in {"LI", "LE", "LX", "PE"}
IsUpper(c) == c \in {"UI", "UE", "UX", "PE"}

(* Merging; infinite markers only ever meet their equals. *)
Merge(tab, a, b) ==
    IF a \in {"LX", "UX"} THEN (IF a = b THEN a ELSE "panic") ELSE tab[a][b]
MergeMinus(a, b) ==
    IF a \in {"LX", "UX"} THEN (IF a = b THEN "no" ELSE "panic") ELSE T!MinusTab[a][b]
MergeUnion(a, b)     == Merge(T!UnionTab, a, b)
MergeIntersect(a, b) == Merge(T!IntersectTab, a, b)
InvertCode(c) == IF c \in {"LX", "UX"} THEN "panic" ELSE T!InvertTab[c]

Ends(l, u) == [l |-> l, u |-> u, ok |-> TRUE]
Panic == [l |-> "no", u |-> "no", ok |-> FALSE]
EndsIf(c, l, u) == IF c THEN Ends(l, u) ELSE Panic

-------------------------------------------------------------------------------
UnionAt(t, before, after) ==
    LET m == IF t # "no" THEN MergeUnion(t, "PI") ELSE "PI" IN
    IF m = "panic" THEN Panic
    ELSE IF m = "no" THEN Ends("no", "no")
    ELSE CASE before /\ after   -> Ends("no", "no")
           [] before /\ ~after  -> EndsIf(~IsLower(m), m, "no")
           [] ~before /\ after  -> EndsIf(~IsUpper(m), m, "no")
           [] ~before /\ ~after -> Ends(m, "no")

UnionEnds(t, lc, s, uc, before, after) ==
    LET l    == IF t # "no" THEN MergeUnion(t, lc) ELSE lc
        u    == IF s # "no" THEN MergeUnion(s, uc) ELSE uc
        hasL == l # "no"
        hasU == u # "no"
        Keep(c, x) == IF c THEN x ELSE "no"
    IN  IF "panic" \in {l, u} \/ (hasL /\ ~IsLower(l)) \/ (hasU /\ ~IsUpper(u)) THEN Panic
        ELSE CASE before /\ hasL /\ hasU /\ after   -> Ends(Keep(IsUpper(l), l), Keep(IsLower(u), u))
               [] before /\ hasL /\ hasU /\ ~after  -> EndsIf(~IsLower(u), Keep(IsUpper(l), l), u)
               [] ~before /\ hasL /\ hasU /\ after  -> EndsIf(~IsUpper(l), l, Keep(IsLower(u), u))
               [] ~before /\ hasL /\ hasU /\ ~after -> EndsIf(~IsUpper(l) /\ ~IsLower(u), l, u)
               [] before /\ hasL /\ ~hasU /\ after  -> Ends(Keep(l = "PE", l), "no")
               [] ~before /\ hasL /\ ~hasU /\ after -> EndsIf(~IsUpper(l), l, "no")
               [] before /\ ~hasL /\ hasU /\ after  -> Ends("no", Keep(u = "PE", u))
               [] before /\ ~hasL /\ hasU /\ ~after -> EndsIf(~IsLower(u), "no", u)
               [] before /\ ~hasL /\ ~hasU /\ after -> Ends("no", "no")
               [] OTHER -> Panic

MinusAt(t, before, after) ==
    LET m == IF t # "no" THEN MergeMinus(t, "PI") ELSE "PI" IN
    IF m = "panic" THEN Panic
    ELSE IF m = "no" THEN Ends("no", "no")
    ELSE CASE before /\ after   -> Ends(IF m = "PE" THEN m ELSE InvertCode(m), "no")
           [] before /\ ~after  -> EndsIf(IsUpper(m), m, "no")
           [] ~before /\ after  -> EndsIf(IsLower(m), m, "no")
           [] ~before /\ ~after -> Ends("no", "no")

MinusEnds(t, lc, s, uc, before, after) ==
    LET l    == IF t # "no" THEN MergeMinus(t, lc) ELSE lc
        u    == IF s # "no" THEN MergeMinus(s, uc) ELSE uc
        hasL == l # "no"
        hasU == u # "no"
        AsUpper(c) == IF IsUpper(c) THEN c ELSE InvertCode(c)
        AsLower(c) == IF IsLower(c) THEN c ELSE InvertCode(c)
        Point(c)   == IF c = "PI" THEN c ELSE "no"
    IN  IF "panic" \in {l, u} THEN Panic
        ELSE CASE before /\ hasL /\ hasU /\ after -> EndsIf("panic" \notin {AsUpper(l), AsLower(u)}, AsUpper(l), AsLower(u))
               [] before /\ hasL /\ ~after -> EndsIf(AsUpper(l) # "panic", AsUpper(l), Point(u))
               [] ~before /\ hasU /\ after -> EndsIf(AsLower(u) # "panic", Point(l), AsLower(u))
               [] ~before /\ ~after       -> Ends(Point(l), Point(u))
               [] OTHER -> Panic

(* inL, inU: inside just above the lower, just below the upper end *)
IntersectEnds(t, lc, s, uc, inL, inU) ==
    LET l == IF t # "no" THEN MergeIntersect(t, lc) ELSE IF inL THEN lc ELSE "no"
        u == IF s # "no" THEN MergeIntersect(s, uc) ELSE IF inU THEN uc ELSE "no"
    IN  EndsIf("panic" \notin {l, u}, l, u)
===============================================================================
