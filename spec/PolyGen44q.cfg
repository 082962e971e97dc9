SPECIFICATION Spec
CONSTANTS W = 4 H = 4 MaxN = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
