SPECIFICATION Spec
INVARIANTS StandsFor Recovered Certified Small
CHECK_DEADLOCK FALSE
CONSTANTS M = 2 N = 2 Choose = 600 Budget = 2 Emit = FALSE
