SPECIFICATION Spec
CONSTANT D = 3
INVARIANTS OrdersAreStrict AsWritten Preorders Transitive
CHECK_DEADLOCK FALSE
