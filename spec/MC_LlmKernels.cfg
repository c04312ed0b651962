SPECIFICATION Spec
INVARIANTS Whole Stored Within
PROPERTY Alone
CHECK_DEADLOCK FALSE
CONSTANTS
  Ctx = 3
  Layers = 2
  Vals = {0, 1}
  MaxBack = 1
  Qs = {1}
