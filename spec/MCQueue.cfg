INIT Init
NEXT Next
VIEW View
INVARIANTS Refines WellFormed Regains Export
CHECK_DEADLOCK FALSE
