SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 255, 62}
  Chars = {65, 47, 61, 45, 10}
  MaxLen = 4
  MaxLen2 = 4
CONSTRAINT Bound
INVARIANT Laws
CHECK_DEADLOCK FALSE
VIEW MCView
