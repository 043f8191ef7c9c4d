SPECIFICATION Spec
CONSTANTS NOB=8 NCO=5
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
