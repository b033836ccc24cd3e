SPECIFICATION GenSpec
CONSTANTS
  Part = 19
  Kinds = {0}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
