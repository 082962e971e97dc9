SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Emit Conserved
CHECK_DEADLOCK FALSE
