SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 3 N = 3 K = 2 Slacks = 1 Choose = 1500
