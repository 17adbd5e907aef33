SPECIFICATION Spec
CONSTANTS MaxIn = 4 MaxOut = 8
INVARIANTS Fits Once Increasing InRange Inverts Total
CHECK_DEADLOCK FALSE
