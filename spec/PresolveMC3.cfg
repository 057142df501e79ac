SPECIFICATION Spec
INVARIANTS StandsFor Recovered Certified Small
CHECK_DEADLOCK FALSE
CONSTANTS M = 2 N = 3 Choose = 3000 Budget = 2 Emit = FALSE
