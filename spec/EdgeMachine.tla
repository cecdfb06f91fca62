----------------------------- MODULE EdgeMachine ------------------------------
(***************************************************************************)
(* Edits of a TineTree with any number of values and markers.  TreeMachine *)
(* shows (LocalOK) that the markers before and after a position tell       *)
(* whether the gaps next to it are inside, so an edit sees of the tree     *)
(* only the regions just below, at and just above the edit's two ends: six *)
(* bits.  Here they are arbitrary, and so are the interval's bounds; the   *)
(* markers put at the ends are exactly the ones the new set calls for.     *)
(* (Between its ends an edit drops all markers, or keeps all; outside it   *)
(* is the other way round.)                                                *)
(***************************************************************************)
EXTENDS TineEdges
VARIABLES lower, upper, lc, uc, op, res
vars == <<lower, upper, lc, uc, op, res>>

Bit == {0, 1}
Three == Bit \X Bit \X Bit
In(b) == b = 1

(* the marker at an end of the line, or at a value with regions b *)
LowMark(c, b) == IF c = "LX" THEN (IF In(b[3]) THEN "LX" ELSE "no") ELSE T!CodeOf(b)
UppMark(c, b) == IF c = "UX" THEN (IF In(b[1]) THEN "UX" ELSE "no") ELSE T!CodeOf(b)
Given(c) == CASE c = "LX" -> <<0, 1, 1>> [] c = "UX" -> <<1, 1, 0>> [] OTHER -> T!Bits[c]

Init ==
    /\ lower \in Three /\ upper \in Three
    /\ lc \in {"LI", "LE", "LX", "PI"} /\ uc \in {"UI", "UE", "UX", "PI"}
    /\ (lc = "PI") <=> (uc = "PI")             \* a point: one end, upper unused
    /\ lc = "LX" => lower[1] = 0 /\ lower[2] = lower[3]     \* nothing below minus infinity
    /\ uc = "UX" => upper[3] = 0 /\ upper[2] = upper[1]
    /\ op = "none" /\ res = Ends("no", "no")

Before == In(lower[1])
After  == In(upper[3])
Edit(name, point, ends) ==
    /\ op' = name /\ res' = (IF lc = "PI" THEN point ELSE ends)
    /\ UNCHANGED <<lower, upper, lc, uc>>
Lm == LowMark(lc, lower)
Um == UppMark(uc, upper)
Full == lc = "LX" /\ uc = "UX"     \* answered before the tree is looked at
Next ==
    /\ op = "none" /\ ~Full
    /\ \/ Edit("union", UnionAt(Lm, Before, In(lower[3])), UnionEnds(Lm, lc, Um, uc, Before, After))
       \/ Edit("minus", MinusAt(Lm, Before, In(lower[3])), MinusEnds(Lm, lc, Um, uc, Before, After))
       \/ lc # "PI" /\ Edit("intersect", Panic, IntersectEnds(Lm, lc, Um, uc, In(lower[3]), In(upper[1])))
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Combine(f(_, _), b, c) == [i \in 1..3 |-> f(b[i], Given(c)[i])]
New(b, c) ==
    CASE op = "union"     -> Combine(T!OrBit, b, c)
      [] op = "minus"     -> Combine(T!SubBit, b, c)
      [] op = "intersect" -> Combine(T!AndBit, b, c)
NoPanic == res.ok
EndsOK ==
    op # "none" =>
        /\ res.l = LowMark(lc, New(lower, lc))
        /\ lc # "PI" => res.u = UppMark(uc, New(upper, uc))
===============================================================================
