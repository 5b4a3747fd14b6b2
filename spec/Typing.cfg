SPECIFICATION SpecAtRandom
CONSTANTS
  Sizes <- SizesSim
  Junk = 60
  Depth = 4
INVARIANTS BackAtStart AllOld Emit
CHECK_DEADLOCK FALSE
