SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  MaxInst = 4
  Kept = TRUE
  Envs = 4
  Hist = TRUE
INVARIANT Export
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
