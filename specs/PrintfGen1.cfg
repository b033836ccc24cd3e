SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1}
  Formats = {111, 120, 88}
  Depth = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
