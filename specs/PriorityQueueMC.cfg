SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2, 3}
  MaxLen = 5
  MaxLen2 = 2
CONSTRAINT Bound
INVARIANT Descending
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
