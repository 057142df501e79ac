CONSTANTS
  M = 2
  N = 2
  K = 1
  BlandOnly = FALSE
  Patience = 0
SPECIFICATION Spec
INVARIANTS IsState Feas Canon1 Defined NoArtificialInTwo NotStuck Verdict SameRank
PROPERTY Monotone
CHECK_DEADLOCK FALSE
