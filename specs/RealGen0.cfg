SPECIFICATION GenSpec
CONSTANTS
  Kinds = {0}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
