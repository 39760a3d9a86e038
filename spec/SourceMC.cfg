CONSTANTS Workers = {1, 2, 3}
 N = 3
 UseLock = TRUE
INIT Init
NEXT Next
INVARIANTS OnceEach InOrder CloneIsPoint
CHECK_DEADLOCK FALSE
