----------------------------- MODULE NotationTrace ----------------------------
(***************************************************************************)
(* Trace validation for parsing: each line is a text (as tokens) given to  *)
(* the real parser and what it answered: a raw interval, or <<-1,0,0>> for *)
(* a bad shape, <<-2,0,0>> for a bad value.                                *)
(***************************************************************************)
EXTENDS Notation, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ text = <<>> /\ edits = 0
Explains(m, r) ==
    CASE m = Reject   -> r \in {Reject, BadValue}
      [] m = BadValue -> r = BadValue
      [] OTHER        -> r = m
TNext ==
    /\ l <= Len(Log) /\ l' = l + 1
    /\ text' = Log[l].t /\ UNCHANGED edits
    /\ Explains(Meaning(text'), Log[l].r)
TSpec == TInit /\ [][TNext]_<<text, edits, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
