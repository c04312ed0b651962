SPECIFICATION Spec
CONSTANTS MaxNodes = 3
INVARIANTS Restores Available OnceEach Kept Marked
CHECK_DEADLOCK FALSE
