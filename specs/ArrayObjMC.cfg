SPECIFICATION Spec
CONSTANTS
  Elems = {1, 2}
  MaxLen = 4
  MaxLen2 = 3
  Kinds = {0, 1}
CONSTRAINT Bound
INVARIANT Failing
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
VIEW MCView
