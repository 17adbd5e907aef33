SPECIFICATION TraceSpec
CONSTANT MaxToks = 0
CHECK_DEADLOCK FALSE
