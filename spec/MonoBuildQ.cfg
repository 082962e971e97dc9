CONSTANTS W = 3 H = 3 MaxN = 6 Mode = "build" D = 2
SPECIFICATION MSpec
INVARIANTS Decided Built Falling
CHECK_DEADLOCK FALSE
