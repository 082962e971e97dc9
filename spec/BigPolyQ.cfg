SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  MaxN = 5
INVARIANTS Same
CHECK_DEADLOCK FALSE
