SPECIFICATION ConcSpec
CHECK_DEADLOCK FALSE
