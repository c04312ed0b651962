SPECIFICATION Spec
CONSTANTS MaxNodes = 2
INVARIANTS Meaning Final
CHECK_DEADLOCK FALSE
