SPECIFICATION Spec
INVARIANT AtEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
