CONSTANT Accept <- AcceptRecord
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
