SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS M = 2 Depth = 6 Emit = FALSE
