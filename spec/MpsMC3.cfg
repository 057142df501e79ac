SPECIFICATION Spec
INVARIANTS Agree Tables Incomplete
CHECK_DEADLOCK FALSE
CONSTANTS MaxBounds = 3 Wide = TRUE Emit = TRUE
