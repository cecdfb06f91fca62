------------------------------- MODULE WordTrace ------------------------------
(***************************************************************************)
(* Trace validation for the Finite implementations: every recorded call,   *)
(* values as bytes, least significant first, empty for None, must be what  *)
(* Word prescribes.                                                        *)
(***************************************************************************)
EXTENDS Word, TLC, TLCExt, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A b \in {2, 4}, w \in 1..3, s \in BOOLEAN : ArithmeticOK(b, w, s)
ASSUME \A s \in BOOLEAN : ArithmeticOK(256, 1, s)

VARIABLE l
Init == l = 1
e == Log[l]
One ==
    /\ e.op = "x"
    /\ Len(e.x) = e.w
    /\ e.s = Succ(256, e.x, e.signed)
    /\ e.p = Pred(256, e.x, e.signed)
    /\ e.min = MinDigits(256, e.w, e.signed)
    /\ e.max = MaxDigits(256, e.w, e.signed)
(* A stretch of values from..to whose succ (op s) or pred (op p) all lie   *)
(* `by` places away, imf and imt being those of the two ends; stretches of *)
(* a chain follow each other without a gap, a whole one from the minimum   *)
(* to the maximum.                                                         *)
Stretch ==
    LET s == e.signed
        min == MinDigits(256, e.w, s)
        max == MaxDigits(256, e.w, s)
    IN
    /\ Len(e.from) = e.w /\ Len(e.to) = e.w
    /\ CASE e.op = "s" -> IF e.from = max THEN e.to = max /\ e.imf = Absent
                          ELSE e.to # max /\ e.by = 1 /\ e.imf = Succ(256, e.from, s) /\ e.imt = Succ(256, e.to, s)
         [] e.op = "p" -> IF e.from = min THEN e.to = min /\ e.imf = Absent
                          ELSE e.by = -1 /\ e.imf = Pred(256, e.from, s) /\ e.imt = Pred(256, e.to, s)
    /\ IF e.first THEN e.whole => e.from = min
       ELSE /\ Log[l-1].t = e.t /\ Log[l-1].op = e.op /\ ~Log[l-1].last
            /\ e.from = Succ(256, Log[l-1].to, s)
    /\ e.last => (e.whole => e.to = max)
    /\ ~e.last => l < Len(Log)
Next == l <= Len(Log) /\ (One \/ (e.op \in {"s", "p"} /\ Stretch)) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
