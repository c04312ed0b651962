SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  Sizes = {1, 3}
INVARIANTS Tiled Kept Disjoint Enough Tight Needed Complete
CHECK_DEADLOCK FALSE
