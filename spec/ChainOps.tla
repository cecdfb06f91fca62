-------------------------------- MODULE ChainOps -------------------------------
(***************************************************************************)
(* The algorithms of src/normalize.rs on the finite chain 1..N, in the     *)
(* typed fragment Apalache reads (see Unbounded).                          *)
(***************************************************************************)
EXTENDS RawOps

MINP == 1
MAXP == N
None == 0

\* @type: (Int) => Int;
Pred(v) == IF v = MINP THEN None ELSE v - 1
\* @type: (Int) => Int;
Succ(v) == IF v = MAXP THEN None ELSE v + 1

\* @type: (Int, Int) => $raw;
MkClosed(l, r) == IF l < r THEN MkRaw(kClosed, l, r) ELSE IF l = r THEN MkRaw(kPoint, l, l) ELSE Empty
\* @type: ($raw) => $raw;
NormalizeImpl(w) ==
    CASE w[1] = kEmpty -> Empty
      [] w[1] = kPoint -> w
      [] w[1] = kOpen -> IF Succ(w[2]) # None /\ Pred(w[3]) # None THEN MkClosed(Succ(w[2]), Pred(w[3])) ELSE Empty
      [] w[1] = kLeftOpen -> IF Succ(w[2]) # None THEN MkClosed(Succ(w[2]), w[3]) ELSE Empty
      [] w[1] = kRightOpen -> IF Pred(w[3]) # None THEN MkClosed(w[2], Pred(w[3])) ELSE Empty
      [] w[1] = kClosed -> MkClosed(w[2], w[3])
      [] w[1] = kUpTo -> IF Pred(w[3]) # None THEN MkClosed(MINP, Pred(w[3])) ELSE Empty
      [] w[1] = kUpFrom -> IF Succ(w[2]) # None THEN MkClosed(Succ(w[2]), MAXP) ELSE Empty
      [] w[1] = kTo -> MkClosed(MINP, w[3])
      [] w[1] = kFrom -> MkClosed(w[2], MAXP)
      [] w[1] = kFull -> MkClosed(MINP, MAXP)
\* @type: (Int, Int) => $raw;
OpenOut(l, r) ==        \* pred of l and succ of r as exclusive bounds
    IF l # None THEN (IF r # None THEN MkRaw(kOpen, l, r) ELSE MkRaw(kUpFrom, l, 0))
    ELSE IF r # None THEN MkRaw(kUpTo, 0, r) ELSE Full
\* @type: ($raw) => $raw;
DenormalizeImpl(w) ==
    CASE w[1] = kEmpty -> Empty
      [] w[1] = kPoint -> OpenOut(Pred(w[2]), Succ(w[2]))
      [] w[1] = kOpen -> w
      [] w[1] = kLeftOpen -> IF Succ(w[3]) # None THEN MkRaw(kOpen, w[2], Succ(w[3])) ELSE MkRaw(kUpFrom, w[2], 0)
      [] w[1] = kRightOpen -> IF Pred(w[2]) # None THEN MkRaw(kOpen, Pred(w[2]), w[3]) ELSE MkRaw(kUpTo, 0, w[3])
      [] w[1] = kClosed -> OpenOut(Pred(w[2]), Succ(w[3]))
      [] w[1] = kUpTo -> w
      [] w[1] = kUpFrom -> w
      [] w[1] = kTo -> IF Succ(w[3]) # None THEN MkRaw(kUpTo, 0, Succ(w[3])) ELSE Full
      [] w[1] = kFrom -> IF Pred(w[2]) # None THEN MkRaw(kUpFrom, Pred(w[2]), 0) ELSE Full
      [] w[1] = kFull -> Full
===============================================================================
