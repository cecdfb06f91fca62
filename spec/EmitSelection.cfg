CONSTANT K = 6
SPECIFICATION Spec
INVARIANTS Obs Tight
CHECK_DEADLOCK FALSE
