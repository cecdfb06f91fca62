------------------------------ MODULE WordMachine -----------------------------
(***************************************************************************)
(* A machine integer stepped up and down by succ and pred: digits with     *)
(* carry against plain arithmetic.                                         *)
(***************************************************************************)
EXTENDS Word
CONSTANTS Base, Width, Signed
VARIABLES d, n
vars == <<d, n>>
Lo == Value(Base, MinDigits(Base, Width, Signed), Signed)
Hi == Value(Base, MaxDigits(Base, Width, Signed), Signed)
Init == d = MinDigits(Base, Width, Signed) /\ n = Lo
Up   == Succ(Base, d, Signed) # Absent /\ d' = Succ(Base, d, Signed) /\ n' = n + 1
Down == Pred(Base, d, Signed) # Absent /\ d' = Pred(Base, d, Signed) /\ n' = n - 1
Next == Up \/ Down
Spec == Init /\ [][Next]_vars /\ WF_vars(Up)

ValueOK   == Value(Base, d, Signed) = n /\ n \in Lo..Hi
EndsOK    == /\ Succ(Base, d, Signed) = Absent <=> n = Hi
             /\ Pred(Base, d, Signed) = Absent <=> n = Lo
InverseOK == /\ n # Hi => Pred(Base, Succ(Base, d, Signed), Signed) = d
             /\ n # Lo => Succ(Base, Pred(Base, d, Signed), Signed) = d
RangeOK   == IF Signed THEN Lo = -(Base^Width \div 2) /\ Hi = Base^Width \div 2 - 1
             ELSE Lo = 0 /\ Hi = Base^Width - 1
===============================================================================
