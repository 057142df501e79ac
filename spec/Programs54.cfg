SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 5 N = 4 K = 1 Slacks = 1 Choose = 10000
