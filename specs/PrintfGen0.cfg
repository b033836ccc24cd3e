SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1}
  Formats = {100, 105, 117}
  Depth = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
