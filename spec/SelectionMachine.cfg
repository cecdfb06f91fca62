CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS NoPanic Canonical DecompositionOK QueriesOK BinaryOK
CHECK_DEADLOCK FALSE
