INIT Init
NEXT Next
INVARIANT Invariant
PROPERTY StepOK
CHECK_DEADLOCK FALSE
