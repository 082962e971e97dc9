CONSTANTS W = 3 H = 3 MaxN = 7
SPECIFICATION RSpec
INVARIANTS Single Right Parity
CHECK_DEADLOCK FALSE
