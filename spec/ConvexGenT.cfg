CONSTANTS M = 3 N = 6
SPECIFICATION Spec
INVARIANTS Fits Result
CHECK_DEADLOCK FALSE
