SPECIFICATION Spec
CONSTANTS V = 4 L = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
