INIT Init
NEXT Next
VIEW View
INVARIANT Invariant
PROPERTY StepOK
CHECK_DEADLOCK FALSE
