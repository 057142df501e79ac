SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS M = 3 N = 3 K = 1 Slacks = 3 Choose = 1500
