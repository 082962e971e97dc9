SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
