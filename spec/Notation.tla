------------------------------- MODULE Notation -------------------------------
(***************************************************************************)
(* Interval notation: printing and parsing of raw intervals, on texts seen *)
(* as sequences of tokens.  The machine starts from every printed interval *)
(* and edits the text one token at a time; in every text reached, the      *)
(* parser of the code (split at the first comma, strip the brackets) must  *)
(* agree with the grammar.                                                 *)
(***************************************************************************)
EXTENDS AllRaws, SequencesExt, TLC, Json
CONSTANT MaxEdits, MaxLen

(* Tokens: 1..N are the printed values, then                               *)
tBad == 90  tZero == 91  tLP == 92  tLB == 93  tRP == 94  tRB == 95
tComma == 96  tNegInf == 97  tInf == 98  tSpace == 99
Tokens == Vals \cup {tBad, tZero, tLP, tLB, tRP, tRB, tComma, tNegInf, tInf, tSpace}
IsVal(t) == t \in Vals

PrintOf(w) ==
    IF w[1] = kEmpty THEN <<tZero>>
    ELSE IF w[1] = kPoint THEN <<w[2]>>
    ELSE LET l == RawLower(w)  u == RawUpper(w) IN
         << IF IsInc(l) THEN tLB ELSE tLP, IF IsInf(l) THEN tNegInf ELSE l[2], tComma,
            IF IsInf(u) THEN tInf ELSE u[2], IF IsInc(u) THEN tRB ELSE tRP >>

(* Grammar: what a text means.  <<-1,0,0>>: rejected; <<-2,0,0>>: rejected *)
(* because a bound's value does not parse.                                 *)
Reject   == <<-1, 0, 0>>
BadValue == <<-2, 0, 0>>
LowShape(x, y) == x = tLP \/ x = tLB
Meaning(s) ==
    IF s = <<tZero>> THEN <<kEmpty, 0, 0>>
    ELSE IF Len(s) = 1 /\ IsVal(s[1]) THEN <<kPoint, s[1], s[1]>>
    ELSE IF Len(s) = 5 /\ s[1] \in {tLP, tLB} /\ s[3] = tComma /\ s[5] \in {tRP, tRB}
    THEN LET lOK == IsVal(s[2]) \/ (s[1] = tLP /\ s[2] = tNegInf)
             uOK == IsVal(s[4]) \/ (s[5] = tRP /\ s[4] = tInf)
             lBad == s[2] = tBad
             uBad == s[4] = tBad
             l == IF s[2] = tNegInf THEN Inf ELSE IF s[1] = tLB THEN Inc(s[2]) ELSE Exc(s[2])
             u == IF s[4] = tInf THEN Inf ELSE IF s[5] = tRB THEN Inc(s[4]) ELSE Exc(s[4])
         IN  IF lOK /\ uOK THEN Construct(l, u)
             ELSE IF (lOK \/ lBad) /\ (uOK \/ uBad) THEN BadValue
             ELSE Reject
    ELSE Reject

(* The parser of the code.  Errors: "value" or "shape". *)
ParseValue(s) == IF Len(s) = 1 /\ IsVal(s[1]) THEN s[1] ELSE -1
ParseImpl(s) ==
    IF s = <<tZero>> THEN <<kEmpty, 0, 0>>
    ELSE IF ParseValue(s) # -1 THEN <<kPoint, s[1], s[1]>>
    ELSE IF \A i \in 1..Len(s) : s[i] # tComma THEN <<"shape">>
    ELSE LET c == CHOOSE i \in 1..Len(s) : s[i] = tComma /\ \A j \in 1..i-1 : s[j] # tComma
             x == SubSeq(s, 1, c-1)
             y == SubSeq(s, c+1, Len(s))
             xv == ParseValue(Tail(x))
             yv == ParseValue(Front(y))
             lb == IF x = <<tLP, tNegInf>> THEN Inf
                   ELSE IF x = <<>> \/ x[1] \notin {tLP, tLB} THEN <<"shape">>
                   ELSE IF xv = -1 THEN <<"value">>
                   ELSE IF x[1] = tLP THEN Exc(xv) ELSE Inc(xv)
             ub == IF y = <<tInf, tRP>> THEN Inf
                   ELSE IF y = <<>> \/ Last(y) \notin {tRP, tRB} THEN <<"shape">>
                   ELSE IF yv = -1 THEN <<"value">>
                   ELSE IF Last(y) = tRP THEN Exc(yv) ELSE Inc(yv)
         IN  IF Len(lb) = 1 THEN lb ELSE IF Len(ub) = 1 THEN ub ELSE Construct(lb, ub)

(* A comma inside "bad" text etc. is not a token, so the two must agree: *)
Agrees(s) ==
    LET m == Meaning(s)  p == ParseImpl(s) IN
    CASE m = Reject   -> Len(p) = 1
      [] m = BadValue -> p = <<"value">>
      [] OTHER        -> p = m

-------------------------------------------------------------------------------
VARIABLES text, edits
Init == edits = 0 /\ \E w \in Raws : text = PrintOf(w)
Edit(s) == text' = s /\ edits' = edits + 1 /\ Len(s) <= MaxLen
Next ==
    /\ edits < MaxEdits
    /\ \/ \E i \in 0..Len(text), t \in Tokens : Edit(SubSeq(text, 1, i) \o <<t>> \o SubSeq(text, i+1, Len(text)))
       \/ \E i \in 1..Len(text) : Edit(SubSeq(text, 1, i-1) \o SubSeq(text, i+1, Len(text)))
       \/ \E i \in 1..Len(text) : \E t \in Tokens \ {text[i]} : Edit([text EXCEPT ![i] = t])
Spec == Init /\ [][Next]_<<text, edits>>
View == text

RoundTrip == \A w \in Raws : Meaning(PrintOf(w)) = w
ASSUME RoundTrip
ASSUME PrintT(ToJson(<<0, N>>))
ASSUME \A w \in Raws : PrintT(ToJson(<<41, w, PrintOf(w)>>))
ParserAgrees == Agrees(text)
Emit == PrintT(ToJson(<<40, text, Meaning(text)>>))
===============================================================================
