SPECIFICATION Spec
CONSTANT Scoped = TRUE
INVARIANT Direct
INVARIANT OnlyNamed
INVARIANT Auth
CHECK_DEADLOCK FALSE
