SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  MaxN = 6
INVARIANTS Same
CHECK_DEADLOCK FALSE
