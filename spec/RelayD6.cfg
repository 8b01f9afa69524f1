\* expected to fail: the finding D6
SPECIFICATION Spec
CONSTANT Scoped = FALSE
INVARIANT Auth
CHECK_DEADLOCK FALSE
