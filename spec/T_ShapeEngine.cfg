SPECIFICATION Spec
CONSTANTS
  MaxP = 1000000
  MaxR = 32
CHECK_DEADLOCK FALSE
