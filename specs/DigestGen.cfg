SPECIFICATION GenSpec
CONSTANTS
  Chunks = {1, 8, 55, 64}
  MaxLen = 72
  MaxLen2 = 3
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
