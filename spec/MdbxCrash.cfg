SPECIFICATION CrashSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
