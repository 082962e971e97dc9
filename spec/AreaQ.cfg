SPECIFICATION Spec
CONSTANTS W = 3 H = 3 MaxN = 9
INVARIANTS AreaRight Direction Pick CentroidRight Additive BoxLeast Within
CHECK_DEADLOCK FALSE
