SPECIFICATION Spec
CONSTANTS B = 4 C = 6
INVARIANTS Spreads Monotone KeyFits
CHECK_DEADLOCK FALSE
