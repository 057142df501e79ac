SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS M = 3 Depth = 4 Emit = FALSE
