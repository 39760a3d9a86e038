SPECIFICATION Spec
INVARIANT Valid
PROPERTY Ends
CHECK_DEADLOCK FALSE
