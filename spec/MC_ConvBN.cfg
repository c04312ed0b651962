CONSTANT MaxNodes = 3
SPECIFICATION Spec
INVARIANT SameFunction SameOut Disjoint Wired
CHECK_DEADLOCK FALSE
