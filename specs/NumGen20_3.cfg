SPECIFICATION GenSpec
CONSTANTS
  Part = 20
  Kinds = {3}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
