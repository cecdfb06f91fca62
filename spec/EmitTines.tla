------------------------------ MODULE EmitTines -------------------------------
(***************************************************************************)
(* Tables of the boundary markers (finite ones at one point), from the     *)
(* three-bit meaning; order of markers over N values with the infinities   *)
(* at both ends; markers of every raw interval.                            *)
(***************************************************************************)
EXTENDS TineTree, TLC, Json
Row(x) == PrintT(ToJson(x))
B(x) == IF x THEN 1 ELSE 0
Num(c) == CASE c = "no" -> 0 [] c = "LI" -> 1 [] c = "LE" -> 2 [] c = "PI" -> 3
            [] c = "PE" -> 4 [] c = "UI" -> 5 [] c = "UE" -> 6 [] c = "LX" -> 7 [] c = "UX" -> 8
ASSUME Row(<<0, N>>)
ASSUME T!TablesAgree
ASSUME \A a \in T!Codes :
    Row(<<20, Num(a), Num(T!InvertSpec(a)), B(T!IsLowerSpec(a)), B(T!IsUpperSpec(a)),
          B(T!IsPointIncSpec(a)), B(T!IsPointExcSpec(a))>>)
ASSUME \A a \in T!Codes, b \in T!Codes :
    Row(<<21, Num(a), Num(b), Num(T!UnionSpec(a,b)), Num(T!IntersectSpec(a,b)), Num(T!MinusSpec(a,b))>>)
(* Infinite markers only meet their equals, where everything, nothing, or  *)
(* the same remains on the one side there is. *)
ASSUME \A c \in {"LX", "UX"} :
    Row(<<21, Num(c), Num(c), Num(MergeUnion(c, c)), Num(MergeIntersect(c, c)), Num(MergeMinus(c, c))>>)
(* order: by place; places are 0 for -infinity and N+1 for +infinity *)
Markers == {<<p, c>> : p \in Vals, c \in T!Codes} \cup {<<0, "LX">>, <<N+1, "UX">>}
Cmp(x, y) == IF x[1] < y[1] THEN -1 ELSE IF x[1] = y[1] THEN 0 ELSE 1
ASSUME \A x \in Markers, y \in Markers : Row(<<22, x[1], Num(x[2]), y[1], Num(y[2]), Cmp(x, y)>>)
ASSUME \A w \in Raws : Row(<<23, w, LET t == TreeOfRaw(w) IN
    [i \in 1..Cardinality(Used(t)) |-> LET p == SetToSortSeq(Used(t), <)[i] IN <<p, Num(t[p])>>]>>)
===============================================================================
