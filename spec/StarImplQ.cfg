CONSTANTS W = 3 H = 3 MaxN = 6
SPECIFICATION Spec
INVARIANTS Works Rest
CHECK_DEADLOCK FALSE
