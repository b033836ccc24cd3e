SPECIFICATION GenSpec
CONSTANTS
  Elems = {1, 2}
  MaxLen = 3
  MaxLen2 = 1
  Kinds = {0}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
