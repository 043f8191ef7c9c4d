SPECIFICATION Spec
CONSTANT TOL = 3
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
