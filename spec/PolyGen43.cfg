SPECIFICATION Spec
CONSTANTS W = 4 H = 3 MaxN = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
