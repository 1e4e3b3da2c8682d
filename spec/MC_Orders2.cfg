SPECIFICATION Spec
CONSTANT D = 2
INVARIANTS OrdersAreStrict AsWritten Preorders Transitive
CHECK_DEADLOCK FALSE
