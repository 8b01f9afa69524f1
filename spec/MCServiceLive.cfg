SPECIFICATION Spec
CONSTANTS
  Ids = {1}
  MaxInst = 5
  Kept = TRUE
  Envs = 4
  Hist = FALSE
PROPERTY KeepsTrying
CHECK_DEADLOCK FALSE
