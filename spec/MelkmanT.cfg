CONSTANTS W = 4 H = 3 MaxN = 9
SPECIFICATION MSpec
INVARIANTS Result Hull Safe
CHECK_DEADLOCK FALSE
