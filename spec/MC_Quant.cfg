SPECIFICATION Spec
CONSTANTS Bound = 30
 MaxVals = 3
INVARIANTS InRange ZeroInRange Half ZeroExact Monotone Packing
CHECK_DEADLOCK FALSE
