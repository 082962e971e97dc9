SPECIFICATION Spec
CONSTANTS W = 3 H = 3 K = 5 MaxN = 6
INVARIANTS Exact Oriented Truthful DirIsArea Convex
CHECK_DEADLOCK FALSE
