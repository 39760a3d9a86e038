SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxT = 4
INVARIANTS Inv NeverBlocked
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
