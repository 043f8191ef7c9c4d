SPECIFICATION Spec
CONSTANT TOL = 4
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
