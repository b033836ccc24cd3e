SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Inputs = {1, 2}
  Pieces = 3
  Areas = 3
INVARIANT Independent
CHECK_DEADLOCK FALSE
