SPECIFICATION Spec
CONSTANT D = 3
INVARIANT Theory
CHECK_DEADLOCK FALSE
