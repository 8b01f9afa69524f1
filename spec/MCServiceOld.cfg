\* not run by a check: shows what the original design violates
SPECIFICATION Spec
CONSTANTS
  Ids = {1}
  MaxInst = 3
  Kept = FALSE
  Envs = 4
  Hist = FALSE
INVARIANT AtMostOne
INVARIANT Tracked
PROPERTY KeepsTrying
CHECK_DEADLOCK FALSE
