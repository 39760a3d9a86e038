CONSTANTS N = 4
 MaxScore = 2
 Workers = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
