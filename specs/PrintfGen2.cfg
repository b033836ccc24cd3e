SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1}
  Formats = {102, 101, 103}
  Depth = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
