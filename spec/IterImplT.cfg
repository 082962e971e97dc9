SPECIFICATION Spec
CONSTANTS MaxN = 24
INVARIANTS LengthKnown SameElement Fused Content
CHECK_DEADLOCK FALSE
