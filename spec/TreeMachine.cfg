CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS BinaryOK
CHECK_DEADLOCK FALSE
