CONSTANT MaxGen = 2
SPECIFICATION Spec
INVARIANT Preserved
CHECK_DEADLOCK FALSE
