SPECIFICATION Spec
INVARIANTS SameMeaning OnlyConstant Complete Sourced
CHECK_DEADLOCK FALSE
CONSTANT MaxNodes = 3
