SPECIFICATION VSpec
CONSTANTS W = 3 H = 3 MaxN = 8 S = 3
INVARIANTS Decides Sound Right Star
CHECK_DEADLOCK FALSE
