SPECIFICATION Spec
INVARIANTS StandsFor Recovered Certified Small
CHECK_DEADLOCK FALSE
CONSTANTS M = 3 N = 3 Choose = 20000 Budget = 2 Emit = TRUE
