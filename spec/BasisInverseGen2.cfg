SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
CONSTANTS M = 2 Depth = 3 Emit = TRUE
