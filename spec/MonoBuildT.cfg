CONSTANTS W = 4 H = 3 MaxN = 7 Mode = "build" D = 3
SPECIFICATION MSpec
INVARIANTS Decided Built Falling
CHECK_DEADLOCK FALSE
