SPECIFICATION GenSpec
CONSTANTS
  Points = {0, 63, 64}
  MaxLen2 = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
