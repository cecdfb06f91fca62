------------------------------ MODULE RegionLaws ------------------------------
(***************************************************************************)
(* Laws of the abstract machine, checked in every state of Regions.  (They *)
(* quantify over all sets, so they live apart from Regions, which trace    *)
(* validation instantiates with hundreds of positions.)                    *)
(***************************************************************************)
EXTENDS Regions

(* Runs is the only decomposition, so it determines equality. *)
RunsInjective == \A T \in AllSets : Runs(T) = Runs(cur) => T = cur

(* The laws users of a set type rely on. *)
Laws ==
    \A T \in AllSets :
        /\ MinusOf(cur, T) = IntersectOf(cur, ComplementOf(T))
        /\ ComplementOf(UnionOf(cur, T)) = IntersectOf(ComplementOf(cur), ComplementOf(T))
        /\ Meets(cur, T) <=> Runs(IntersectOf(cur, T)) # <<>>
        /\ ComplementOf(ComplementOf(cur)) = cur
===============================================================================
