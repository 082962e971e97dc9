CONSTANTS W = 3 H = 3 K = 4 Algo = "gift"
SPECIFICATION Spec
INVARIANTS Result Stack Covered
CHECK_DEADLOCK FALSE
