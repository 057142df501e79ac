SPECIFICATION Spec
INVARIANT IsInverse
CHECK_DEADLOCK FALSE
