SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  MaxInst = 3
  Kept = TRUE
  Envs = 4
  Hist = FALSE
INVARIANT AtMostOne
INVARIANT Tracked
INVARIANT NoLeak
INVARIANT Served
CHECK_DEADLOCK FALSE
