CONSTANT MaxSteps = 2
SPECIFICATION Spec
INVARIANT ReadsBack NoPrefix Refuses
CHECK_DEADLOCK FALSE
