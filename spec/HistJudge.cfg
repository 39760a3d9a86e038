CONSTANTS InitSt <- TheInit
 StepOK <- TheOK
 StepNext <- TheNext
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
