SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 4 N = 3 K = 1 Slacks = 0 Choose = 1000
