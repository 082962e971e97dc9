CONSTANTS W = 4 H = 3 MaxN = 9
SPECIFICATION RSpec
INVARIANTS Single Right Parity
CHECK_DEADLOCK FALSE
