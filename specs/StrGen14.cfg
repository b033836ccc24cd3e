SPECIFICATION GenSpec
CONSTANTS
  Part = 14
  Alpha = {97, 98, 0}
  MaxLen = 2
  MaxLen2 = 0
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
