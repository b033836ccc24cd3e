SPECIFICATION GenSpec
CONSTANTS
  Elems = {1, 2, 3}
  MaxLen = 4
  MaxLen2 = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
