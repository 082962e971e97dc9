SPECIFICATION Spec
CONSTANTS V = 4 MaxNodes = 4
INVARIANTS Refines WellFormed
CHECK_DEADLOCK FALSE
