CONSTANT R = 2
SPECIFICATION Spec
INVARIANTS Same Anti Trans Rays First Cyclic Quarter Cut AlongOk
CHECK_DEADLOCK FALSE
