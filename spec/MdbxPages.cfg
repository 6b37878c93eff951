SPECIFICATION PagesSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
