CONSTANTS W = 4 H = 4 MaxN = 5
SPECIFICATION Spec
INVARIANTS Works Rest
CHECK_DEADLOCK FALSE
