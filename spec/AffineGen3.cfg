SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
