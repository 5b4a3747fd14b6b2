SPECIFICATION Spec
INVARIANTS Scoped Emit
CHECK_DEADLOCK FALSE
