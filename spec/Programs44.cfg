SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 4 N = 4 K = 2 Slacks = 2 Choose = 10000
