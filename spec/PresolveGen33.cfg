SPECIFICATION Spec
INVARIANTS StandsFor Recovered Certified Small
CHECK_DEADLOCK FALSE
CONSTANTS M = 3 N = 3 Choose = 1500 Budget = 2 Emit = TRUE
