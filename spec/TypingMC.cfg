SPECIFICATION Spec
CONSTANTS
  Sizes <- SizesMC
  Junk = 2
  Depth = 2
INVARIANTS Restored BackAtStart AllOld
CHECK_DEADLOCK FALSE
