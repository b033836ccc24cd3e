SPECIFICATION GenSpec
CONSTANTS
  Bytes = {0, 255, 62}
  Chars = {65, 47, 61, 45, 10}
  MaxLen = 3
  MaxLen2 = 5
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
