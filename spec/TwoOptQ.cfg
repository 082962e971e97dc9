SPECIFICATION Spec
CONSTANTS W = 3 H = 3 MinN = 3 MaxN = 6
INVARIANTS HoistExists SetExact DoneIsSimple
PROPERTIES AlwaysShorter Terminates
CHECK_DEADLOCK FALSE
