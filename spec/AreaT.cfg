SPECIFICATION Spec
CONSTANTS W = 4 H = 3 MaxN = 8
INVARIANTS AreaRight Direction Pick CentroidRight Additive BoxLeast Within
CHECK_DEADLOCK FALSE
