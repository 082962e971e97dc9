SPECIFICATION Spec
CONSTANTS MaxN = 8
INVARIANTS LengthKnown SameElement Fused Content
CHECK_DEADLOCK FALSE
