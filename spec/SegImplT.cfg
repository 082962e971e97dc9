CONSTANTS W = 4 H = 4
SPECIFICATION Spec
INVARIANTS Isect Symmetric Contains Shared
CHECK_DEADLOCK FALSE
