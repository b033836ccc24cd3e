SPECIFICATION GenSpec
CONSTANTS
  Bytes = {0, 97, 32, 43, 37, 233}
  Chars = {37, 51, 67, 43, 98}
  MaxLen = 3
  MaxLen2 = 5
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
