INIT Init
NEXT Next
INVARIANT NotRejected Fair
CHECK_DEADLOCK FALSE
