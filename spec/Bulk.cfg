CONSTANTS N = 2
 MaxLen = 2
SPECIFICATION Spec
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
