SPECIFICATION Spec
CONSTANTS W = 3 H = 3 MaxN = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
