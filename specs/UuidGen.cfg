SPECIFICATION GenSpec
CONSTANTS
  Halves <- HalfSet
  Depth = 4
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
