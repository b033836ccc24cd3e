SPECIFICATION GenSpec
CONSTANTS
  Sizes = {2, 4}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
