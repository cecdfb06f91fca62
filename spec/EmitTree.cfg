CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Obs
CHECK_DEADLOCK FALSE
