SPECIFICATION Spec
INVARIANTS Tiles Separated Emit
CHECK_DEADLOCK FALSE
