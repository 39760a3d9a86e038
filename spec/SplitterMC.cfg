CONSTANTS MaxN = 4
 MaxK = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
