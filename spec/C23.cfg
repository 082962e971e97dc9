SPECIFICATION Spec
INVARIANT Always
CHECK_DEADLOCK FALSE
