CONSTANT MaxItems = 6
SPECIFICATION Spec
INVARIANTS CursorOK Emit
PROPERTY Fused
CHECK_DEADLOCK FALSE
