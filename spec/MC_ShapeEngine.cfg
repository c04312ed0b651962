SPECIFICATION Spec
CONSTANTS
  MaxP = 9
  MaxR = 9
  Lo = 4
  Hi = 9
INVARIANTS ChainsAreLinear Exact Fresh Explained
CHECK_DEADLOCK FALSE
