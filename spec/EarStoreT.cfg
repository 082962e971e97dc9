CONSTANTS W = 3 H = 3 MaxN = 8
SPECIFICATION ESpec
INVARIANTS TwoEars Complete NeverDry Simple Decides Result
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
