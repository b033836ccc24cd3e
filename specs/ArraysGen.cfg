SPECIFICATION GenSpec
CONSTANTS
  Vals <- ValSet
  MaxLen = 3
  Kinds = {0}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
