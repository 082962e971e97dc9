SPECIFICATION Spec
CONSTANTS
  W = 5
  H = 5
  MaxN = 9
INVARIANTS Right Wedge Cheap Halving
CHECK_DEADLOCK FALSE
