SPECIFICATION Spec
INVARIANTS OwnData InBlock NoOverlap
CHECK_DEADLOCK FALSE
CONSTANT MaxNodes = 2
CONSTANT MaxLen = 2
CONSTANT Calls = 3
CONSTANT Wide = FALSE
