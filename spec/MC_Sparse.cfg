CONSTANT Shapes = {421, 241, 232, 222, 811, 181, 261, 431, 331}
SPECIFICATION Spec
INVARIANT Exact Monotone Longest
CHECK_DEADLOCK FALSE
