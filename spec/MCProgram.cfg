INIT Init
NEXT Next
VIEW View
INVARIANTS Escrow Registry OpenCount WellFormed Unique Once Export
PROPERTIES LeavesProp StableProp GuardedProp
CHECK_DEADLOCK FALSE
