SPECIFICATION GeoSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
