SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2}
  MaxLen = 4
  MaxLen2 = 2
CONSTRAINT Bound
INVARIANT TypeOK
PROPERTIES RefusedKeeps OneAtATime
CHECK_DEADLOCK FALSE
