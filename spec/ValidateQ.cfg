SPECIFICATION Spec
CONSTANTS W = 3 H = 3 K = 4 MaxN = 5
INVARIANTS Exact Oriented Truthful DirIsArea Convex
CHECK_DEADLOCK FALSE
