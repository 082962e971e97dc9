SPECIFICATION Spec
CONSTANTS V = 4 MaxNodes = 3
INVARIANTS Refines WellFormed
CHECK_DEADLOCK FALSE
