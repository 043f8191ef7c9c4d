SPECIFICATION ASpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
