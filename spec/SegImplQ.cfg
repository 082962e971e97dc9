CONSTANTS W = 3 H = 3
SPECIFICATION Spec
INVARIANTS Isect Symmetric Contains Shared
CHECK_DEADLOCK FALSE
