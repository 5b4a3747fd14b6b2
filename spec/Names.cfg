SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT Offers = FALSE
