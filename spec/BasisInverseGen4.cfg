SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
CONSTANTS M = 4 Depth = 40 Emit = TRUE
