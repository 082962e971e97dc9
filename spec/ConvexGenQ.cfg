CONSTANTS M = 3 N = 5
SPECIFICATION Spec
INVARIANTS Fits Result
CHECK_DEADLOCK FALSE
