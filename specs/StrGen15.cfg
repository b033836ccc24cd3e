SPECIFICATION GenSpec
CONSTANTS
  Part = 15
  Alpha = {97, 65, 0}
  MaxLen = 2
  MaxLen2 = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
