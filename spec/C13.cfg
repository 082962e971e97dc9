SPECIFICATION Spec
INVARIANT RingInv
CHECK_DEADLOCK FALSE
