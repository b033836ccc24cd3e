SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Start = 1
  Total = 4
CONSTRAINT Bounded
INVARIANTS Conservation NeverNegative
PROPERTY NoStranding
CHECK_DEADLOCK FALSE
