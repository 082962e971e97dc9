SPECIFICATION Spec
CONSTANT Bits = 4
INVARIANTS Slope Along Perps Dist Fits
CHECK_DEADLOCK FALSE
