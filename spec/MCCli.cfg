INIT Init
NEXT Next
VIEW View
INVARIANTS Fine Whole Export
PROPERTY NamedProp
CHECK_DEADLOCK FALSE
