CONSTANT R = 3
SPECIFICATION Spec
INVARIANTS Same Anti Trans Rays First Cyclic Quarter Cut AlongOk
CHECK_DEADLOCK FALSE
