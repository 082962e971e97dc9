CONSTANTS W = 3 H = 3 K = 7 Algo = "graham"
SPECIFICATION Spec
INVARIANTS Result Stack Covered
CHECK_DEADLOCK FALSE
