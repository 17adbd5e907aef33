SPECIFICATION Spec
CONSTANTS Room = 7
INVARIANTS CutsAreTopLevel WellFormed Report
CHECK_DEADLOCK FALSE
