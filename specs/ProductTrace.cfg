SPECIFICATION Spec
INVARIANT NotRejected
CHECK_DEADLOCK FALSE
