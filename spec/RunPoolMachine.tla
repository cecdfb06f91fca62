----------------------------- MODULE RunPoolMachine ----------------------------
(***************************************************************************)
(* RunPool refines Pool, and what is read off run lists is what Regions    *)
(* says of the sets they mean.                                             *)
(***************************************************************************)
EXTENDS RunPool
Ranges == {r \in (1..K) \X (1..K) : r[1] <= r[2]}
Args   == Ranges \cup {<<1, 0>>}

Next ==
    \/ \E s \in Slots, r \in Args : EditUnion(s, r) \/ EditIntersect(s, r) \/ EditMinus(s, r)
    \/ \E s \in Slots, r \in Args, q \in Args : Collect(s, <<r, q>>) \/ Extend(s, <<r, q>>)
    \/ \E a \in Slots, b \in Slots, c \in Slots : Union(a, b, c) \/ Intersect(a, b, c) \/ Minus(a, b, c)
    \/ \E a \in Slots, c \in Slots : Complement(a, c) \/ Copy(a, c)
    \/ Look
Spec == Init /\ [][Next]_list

(* The sets meant. *)
SetOf(v) == UNION {v[i][1]..v[i][2] : i \in 1..Len(v)}
M == INSTANCE Regions WITH cur <- {}
TypeOK    == \A s \in Slots : IsRunList(K, list[s])
Faithful  == \A s \in Slots : list[s] = M!Runs(SetOf(list[s]))
AnswersOK ==
    \A s \in Slots :
        LET v == list[s]  S == SetOf(v)  before == RLBefore(v)  pts == SetToSortSeq(S, <) IN
        /\ \A p \in 1..K : RLHas(v, p) <=> p \in S
        /\ RLHull(v) = M!Hull(S)
        /\ RLCount(v) = Cardinality(S)
        /\ \A k \in 1..Cardinality(S) : RLAt(v, before, k) = pts[k]
MeetOK == \A a, b \in Slots : Meet(a, b) <=> M!Meets(SetOf(list[a]), SetOf(list[b]))
(* every action does what Pool's does *)
Abs(l) == [s \in Slots |-> SetOf(l[s])]
Steps ==
    \A a, b \in Slots :
        LET S == SetOf(list[a])  T == SetOf(list[b]) IN
        /\ RLUnion(list[a], list[b]) = M!Runs(S \cup T)
        /\ RLIntersect(K, list[a], list[b]) = M!Runs(S \cap T)
        /\ RLMinus(K, list[a], list[b]) = M!Runs(S \ T)
        /\ RLComplement(K, list[a]) = M!Runs((1..K) \ S)
        /\ \A r \in Args : /\ RLUnion(list[a], RLSpan(r)) = M!Runs(S \cup M!Span(r))
                           /\ RLMinus(K, list[a], RLSpan(r)) = M!Runs(S \ M!Span(r))
PoolSpec == INSTANCE Pool WITH slot <- Abs(list)
Refines == PoolSpec!Spec
===============================================================================
