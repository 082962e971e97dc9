SPECIFICATION Spec
CONSTANTS W = 4 H = 3 MinN = 3 MaxN = 7
INVARIANTS HoistExists SetExact DoneIsSimple
PROPERTIES AlwaysShorter Terminates
CHECK_DEADLOCK FALSE
