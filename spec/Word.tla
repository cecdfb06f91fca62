--------------------------------- MODULE Word ---------------------------------
(***************************************************************************)
(* Machine integers as digit strings: succ and pred by carry and borrow,   *)
(* absent exactly at the maximum and minimum.  Digits are least            *)
(* significant first; signed words are in two's complement.  Checked       *)
(* against arithmetic for small bases, used with base 256 and width 1 to   *)
(* 16 bytes to judge every built-in integer type.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxDigits(base, w, signed) == [i \in 1..w |-> IF signed /\ i = w THEN base \div 2 - 1 ELSE base - 1]
MinDigits(base, w, signed) == [i \in 1..w |-> IF signed /\ i = w THEN base \div 2 ELSE 0]

(* add one / subtract one modulo base^w *)
Inc(base, d) == [i \in 1..Len(d) |->
    IF \A j \in 1..i-1 : d[j] = base - 1 THEN (d[i] + 1) % base ELSE d[i]]
Dec(base, d) == [i \in 1..Len(d) |->
    IF \A j \in 1..i-1 : d[j] = 0 THEN (d[i] + base - 1) % base ELSE d[i]]

Absent == <<>>
Succ(base, d, signed) == IF d = MaxDigits(base, Len(d), signed) THEN Absent ELSE Inc(base, d)
Pred(base, d, signed) == IF d = MinDigits(base, Len(d), signed) THEN Absent ELSE Dec(base, d)

(* arithmetic value, for the check *)
RECURSIVE Unsigned(_, _)
Unsigned(base, d) == IF d = <<>> THEN 0 ELSE Head(d) + base * Unsigned(base, Tail(d))
Value(base, d, signed) ==
    LET u == Unsigned(base, d) IN
    IF signed /\ d[Len(d)] >= base \div 2 THEN u - base^Len(d) ELSE u

ArithmeticOK(base, w, signed) ==
    \A d \in [1..w -> 0..base-1] :
        LET v == Value(base, d, signed)
            lo == Value(base, MinDigits(base, w, signed), signed)
            hi == Value(base, MaxDigits(base, w, signed), signed)
        IN  /\ lo <= v /\ v <= hi
            /\ IF v = hi THEN Succ(base, d, signed) = Absent
               ELSE Value(base, Succ(base, d, signed), signed) = v + 1
                    /\ Pred(base, Succ(base, d, signed), signed) = d
            /\ IF v = lo THEN Pred(base, d, signed) = Absent
               ELSE Value(base, Pred(base, d, signed), signed) = v - 1
                    /\ Succ(base, Pred(base, d, signed), signed) = d
===============================================================================
