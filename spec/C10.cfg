SPECIFICATION Spec
INVARIANT RemSimple
CHECK_DEADLOCK FALSE
