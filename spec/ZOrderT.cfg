SPECIFICATION Spec
CONSTANTS B = 8 C = 8
INVARIANTS Spreads Monotone KeyFits
CHECK_DEADLOCK FALSE
