SPECIFICATION Spec
INVARIANT Emit
INVARIANT Dual
INVARIANT Timeless
CHECK_DEADLOCK FALSE
CONSTANT Steps = 9
