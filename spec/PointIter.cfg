CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Refines CursorOK
PROPERTY Fused
CHECK_DEADLOCK FALSE
