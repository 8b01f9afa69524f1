SPECIFICATION Spec
CONSTANT Scoped = FALSE
INVARIANT Direct
INVARIANT OnlyNamed
CHECK_DEADLOCK FALSE
