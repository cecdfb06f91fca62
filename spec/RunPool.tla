-------------------------------- MODULE RunPool --------------------------------
(***************************************************************************)
(* Pool with run lists in the slots: its actions.  RunPoolMachine shows    *)
(* that they refine Pool.                                                  *)
(***************************************************************************)
EXTENDS RunLists
CONSTANTS K, Slots
VARIABLE list

Init == list = [s \in Slots |-> <<>>]
Set(s, v) == list' = [list EXCEPT ![s] = v]
EditUnion(s, r)     == Set(s, RLUnion(list[s], RLSpan(r)))
EditIntersect(s, r) == Set(s, RLIntersect(K, list[s], RLSpan(r)))
EditMinus(s, r)     == Set(s, RLMinus(K, list[s], RLSpan(r)))
Collect(s, rs)      == Set(s, RLOf(rs))
Extend(s, rs)       == Set(s, RLOf(list[s] \o rs))
Union(a, b, c)      == Set(c, RLUnion(list[a], list[b]))
Intersect(a, b, c)  == Set(c, RLIntersect(K, list[a], list[b]))
Minus(a, b, c)      == Set(c, RLMinus(K, list[a], list[b]))
Complement(a, c)    == Set(c, RLComplement(K, list[a]))
Copy(a, c)          == Set(c, list[a])
Look                == UNCHANGED list
Meet(a, b)          == RLIntersect(K, list[a], list[b]) # <<>>
===============================================================================
