CONSTANT Stride = 61
CONSTANT MaxSteps = 2
SPECIFICATION Spec
INVARIANT OwnFile NoOther Effect
CHECK_DEADLOCK FALSE
