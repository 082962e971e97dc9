SPECIFICATION VSpec
CONSTANTS W = 3 H = 3 MaxN = 5 S = 2
INVARIANTS Decides Sound Right Star
CHECK_DEADLOCK FALSE
