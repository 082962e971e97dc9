SPECIFICATION Spec
CONSTANTS MinN = 3 MaxN = 5
INVARIANTS Inverse Reversal IsUncross IsTurn IsHoist Linear
PROPERTY Ends
CHECK_DEADLOCK FALSE
