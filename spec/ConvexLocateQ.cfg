SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 4
  MaxN = 9
INVARIANTS Right Wedge Cheap Halving
CHECK_DEADLOCK FALSE
