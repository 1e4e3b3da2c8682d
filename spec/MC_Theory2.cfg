SPECIFICATION Spec
CONSTANT D = 2
INVARIANT Theory
CHECK_DEADLOCK FALSE
