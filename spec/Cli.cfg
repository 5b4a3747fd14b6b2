SPECIFICATION Spec
INVARIANTS Additive Idempotent Emit Table
CHECK_DEADLOCK FALSE
