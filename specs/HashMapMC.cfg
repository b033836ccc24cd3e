SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Vals = {0, 1}
  MaxLen = 3
  MaxLen2 = 2
CONSTRAINT Bound
INVARIANT TypeOK
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
