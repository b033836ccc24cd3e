SPECIFICATION GenSpec
CONSTANTS
  Classes = {0, 4, 16}
  Texts <- SomeTexts
  Slots = {1, 2}
  Depth = 4
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
