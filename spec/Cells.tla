-------------------------------- MODULE Cells ---------------------------------
(***************************************************************************)
(* Raw intervals over any ordered type, seen through N chosen values.      *)
(*                                                                         *)
(* N values cut the order into 2N+1 cells: cell 2v is the value v itself,  *)
(* cells 2v-1 and 2v+1 are the open gaps beside it, the first and the last *)
(* gap reaching to minus and plus infinity.  A set whose boundaries lie on *)
(* the chosen values is a set of cells, and every non-empty raw interval   *)
(* is exactly one contiguous range of cells (and vice versa).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* @typeAlias: bnd = <<Str, Int>>; @typeAlias: raw = <<Int, Int, Int>>;
\* @typeAlias: range = <<Int, Int>>;
CellsTypes == TRUE

CONSTANT
    \* @type: Int;
    N
ASSUME N \in Nat

Vals   == 1..N
NCells == 2*N + 1
Cells  == 1..NCells

(* Bounds: Include(v), Exclude(v), Infinite. *)
\* @type: (Int) => $bnd;
Inc(v) == <<"I", v>>
\* @type: (Int) => $bnd;
Exc(v) == <<"E", v>>
\* @type: $bnd;
Inf    == <<"X", 0>>
\* @type: ($bnd) => Bool;
IsInc(b) == b[1] = "I"
\* @type: ($bnd) => Bool;
IsExc(b) == b[1] = "E"
\* @type: ($bnd) => Bool;
IsInf(b) == b[1] = "X"

(* First cell of a set with the given lower bound, last cell of a set with *)
(* the given upper bound.                                                  *)
\* @type: ($bnd) => Int;
LowCell(b) == CASE IsInc(b) -> 2*b[2] [] IsExc(b) -> 2*b[2]+1 [] IsInf(b) -> 1
\* @type: ($bnd) => Int;
UppCell(b) == CASE IsInc(b) -> 2*b[2] [] IsExc(b) -> 2*b[2]-1 [] IsInf(b) -> NCells

\* @type: (Int) => $bnd;
LowBound(c) == IF c % 2 = 0 THEN Inc(c \div 2) ELSE IF c = 1 THEN Inf ELSE Exc((c-1) \div 2)
\* @type: (Int) => $bnd;
UppBound(c) == IF c % 2 = 0 THEN Inc(c \div 2) ELSE IF c = NCells THEN Inf ELSE Exc((c+1) \div 2)

(* Raw intervals, as <<kind, left value, right value>> with 0 where the    *)
(* kind has no such value.  Kinds are numbered as in the enum.             *)
kEmpty == 0  kPoint == 1  kOpen == 2   kLeftOpen == 3  kRightOpen == 4  kClosed == 5
kUpTo  == 6  kUpFrom == 7 kTo   == 8   kFrom == 9      kFull == 10
kPartial == 99     \* not an interval: a marker without its counterpart

\* @type: (Int, Int, Int) => $raw;
MkRaw(kind, l, r) == <<kind, l, r>>
\* @type: ($range) => $raw;
RawOf(r) ==     \* the raw interval of a range of cells (NoRange: empty)
    IF r[1] > r[2] THEN MkRaw(kEmpty, 0, 0)
    ELSE LET l == LowBound(r[1])  u == UppBound(r[2]) IN
         IF r[1] = r[2] /\ IsInc(l) THEN MkRaw(kPoint, l[2], l[2])
         ELSE CASE IsInc(l) /\ IsInc(u) -> MkRaw(kClosed, l[2], u[2])
                [] IsInc(l) /\ IsExc(u) -> MkRaw(kRightOpen, l[2], u[2])
                [] IsInc(l) /\ IsInf(u) -> MkRaw(kFrom, l[2], 0)
                [] IsExc(l) /\ IsInc(u) -> MkRaw(kLeftOpen, l[2], u[2])
                [] IsExc(l) /\ IsExc(u) -> MkRaw(kOpen, l[2], u[2])
                [] IsExc(l) /\ IsInf(u) -> MkRaw(kUpFrom, l[2], 0)
                [] IsInf(l) /\ IsInc(u) -> MkRaw(kTo, 0, u[2])
                [] IsInf(l) /\ IsExc(u) -> MkRaw(kUpTo, 0, u[2])
                [] IsInf(l) /\ IsInf(u) -> MkRaw(kFull, 0, 0)

\* @type: (Int, Int) => $range;
CellRange(lo, hi) == IF lo > hi THEN <<1, 0>> ELSE <<lo, hi>>

(* The bounds a raw interval states (not defined for Empty). *)
\* @type: ($raw) => $bnd;
RawLower(w) ==
    CASE w[1] \in {kPoint,kRightOpen,kClosed,kFrom} -> Inc(w[2])
      [] w[1] \in {kOpen,kLeftOpen,kUpFrom}         -> Exc(w[2])
      [] w[1] \in {kUpTo,kTo,kFull}                 -> Inf
\* @type: ($raw) => $bnd;
RawUpper(w) ==
    CASE w[1] \in {kPoint,kLeftOpen,kClosed,kTo}    -> Inc(w[3])
      [] w[1] \in {kOpen,kRightOpen,kUpTo}          -> Exc(w[3])
      [] w[1] \in {kUpFrom,kFrom,kFull}             -> Inf

(* The range of cells a raw interval denotes. *)
\* @type: ($raw) => $range;
RangeOf(w) == IF w[1] = kEmpty THEN <<1,0>>
              ELSE CellRange(LowCell(RawLower(w)), UppCell(RawUpper(w)))

(* Well formed: what the constructors return, one per range of cells. *)
\* @type: ($raw) => Bool;
WellFormed(w) == RawOf(RangeOf(w)) = w

(* Constructor policy for two bounds (documented): both inclusive or       *)
(* half-open coincident bounds give the point; out of order gives empty.   *)
\* @type: ($bnd, $bnd) => $raw;
Construct(l, u) ==
    IF ~IsInf(l) /\ ~IsInf(u) /\ l[2] = u[2]
    THEN IF IsExc(l) /\ IsExc(u) THEN MkRaw(kEmpty, 0, 0) ELSE MkRaw(kPoint, l[2], l[2])
    ELSE RawOf(CellRange(LowCell(l), UppCell(u)))

\* @type: ($raw) => Set(Int);
CellsOf(w) == RangeOf(w)[1]..RangeOf(w)[2]
===============================================================================
