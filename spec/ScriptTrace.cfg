SPECIFICATION TraceSpec
CONSTANT Room = 0
CHECK_DEADLOCK FALSE
