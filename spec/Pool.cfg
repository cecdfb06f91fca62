CONSTANTS K = 3
 Slots = {1,2}
SPECIFICATION Spec
INVARIANTS TypeOK Observable
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
