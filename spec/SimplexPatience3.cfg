CONSTANTS
  M = 2
  N = 3
  K = 1
  BlandOnly = TRUE
  Patience = 3
SPECIFICATION Spec
INVARIANTS IsState Feas Canon1 Defined NoArtificialInTwo NotStuck Verdict SameRank
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
