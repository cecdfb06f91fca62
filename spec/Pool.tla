--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* Several sets side by side: what a program holding a few selections (or  *)
(* bound trees) can do with them.  Operands of binary operations keep      *)
(* their value; every action changes one slot only.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS K, Slots
M == INSTANCE Regions WITH cur <- {}
VARIABLE slot

Init == slot = [s \in Slots |-> {}]
Set(s, S) == slot' = [slot EXCEPT ![s] = S]

EditUnion(s, r)     == Set(s, M!UnionOf(slot[s], M!Span(r)))
EditIntersect(s, r) == Set(s, M!IntersectOf(slot[s], M!Span(r)))
EditMinus(s, r)     == Set(s, M!MinusOf(slot[s], M!Span(r)))
Collect(s, rs)      == Set(s, M!SpanAll(rs))
Extend(s, rs)       == Set(s, slot[s] \cup M!SpanAll(rs))
Union(a, b, c)      == Set(c, M!UnionOf(slot[a], slot[b]))
Intersect(a, b, c)  == Set(c, M!IntersectOf(slot[a], slot[b]))
Minus(a, b, c)      == Set(c, M!MinusOf(slot[a], slot[b]))
Complement(a, c)    == Set(c, M!ComplementOf(slot[a]))
Copy(a, c)          == Set(c, slot[a])      \* clone, or save and load
Look                == UNCHANGED slot       \* any query or traversal

Next ==
    \/ \E s \in Slots, r \in M!Args : EditUnion(s, r) \/ EditIntersect(s, r) \/ EditMinus(s, r)
    \/ \E s \in Slots, r \in M!Args, q \in M!Args : Collect(s, <<r, q>>) \/ Extend(s, <<r, q>>)
    \/ \E a \in Slots, b \in Slots, c \in Slots : Union(a, b, c) \/ Intersect(a, b, c) \/ Minus(a, b, c)
    \/ \E a \in Slots, c \in Slots : Complement(a, c) \/ Copy(a, c)
    \/ Look
Spec == Init /\ [][Next]_slot

TypeOK == slot \in [Slots -> M!AllSets]
(* no action touches two slots *)
OneAtATime == [][\A s, t \in Slots : slot'[s] # slot[s] /\ slot'[t] # slot[t] => s = t]_slot
(* what can be told about a slot from outside determines it *)
Observable == \A s, t \in Slots : (M!Runs(slot[s]) = M!Runs(slot[t])) <=> (slot[s] = slot[t])
===============================================================================
