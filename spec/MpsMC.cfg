SPECIFICATION Spec
INVARIANTS Agree Tables Incomplete
CHECK_DEADLOCK FALSE
CONSTANTS MaxBounds = 2 Wide = FALSE Emit = TRUE
