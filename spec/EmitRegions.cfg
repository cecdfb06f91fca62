CONSTANTS K = 9
 Pairs = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK RunsExact EmitEdits EmitPairs
CHECK_DEADLOCK FALSE
