SPECIFICATION Spec
CONSTANT Bits = 3
INVARIANTS Slope Along Perps Dist Fits
CHECK_DEADLOCK FALSE
