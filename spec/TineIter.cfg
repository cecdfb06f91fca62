CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS NoPanic Refines CursorOK
PROPERTY Fused
CHECK_DEADLOCK FALSE
