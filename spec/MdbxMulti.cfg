SPECIFICATION MultiSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
