CONSTANTS W = 4 H = 3 MaxN = 7 Mode = "decide" D = 2
SPECIFICATION MSpec
INVARIANTS Decided Built Falling
CHECK_DEADLOCK FALSE
