SPECIFICATION Spec
INVARIANT WellFormed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
