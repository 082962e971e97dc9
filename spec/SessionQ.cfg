CONSTANTS W = 3 H = 3 MaxN = 6 D = 1
SPECIFICATION Spec
INVARIANTS Valid HullRight Unique CanCut Turned
PROPERTIES Areas Regions
CHECK_DEADLOCK FALSE
