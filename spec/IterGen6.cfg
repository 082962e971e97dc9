SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Emit Conserved
CHECK_DEADLOCK FALSE
