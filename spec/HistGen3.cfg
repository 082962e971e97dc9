CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
