SPECIFICATION Spec
CONSTANTS V = 4 L = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
