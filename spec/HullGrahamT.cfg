CONSTANTS W = 4 H = 4 K = 5 Algo = "graham"
SPECIFICATION Spec
INVARIANTS Result Stack Covered
CHECK_DEADLOCK FALSE
