SPECIFICATION GenSpec
CONSTANTS
  Classes = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25}
  Texts <- SomeTexts
  Slots = {1}
  Depth = 3
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
