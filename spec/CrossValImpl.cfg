CONSTANTS NFolds = 4
 MaxJobs = 4
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
