SPECIFICATION GenSpec
CONSTANTS
  Keys = {1, 2}
  Vals = {0, 1}
  MaxLen = 2
  MaxLen2 = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
