SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
CONSTANTS M = 3 Depth = 36 Emit = TRUE
