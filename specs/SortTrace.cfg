INIT Init
NEXT Next
INVARIANT NotRejected
CHECK_DEADLOCK FALSE
