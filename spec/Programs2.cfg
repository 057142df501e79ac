SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 2 N = 2 K = 1 Slacks = 0 Choose = 0
