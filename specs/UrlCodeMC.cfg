SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 97, 32, 43, 37, 233}
  Chars = {37, 51, 67, 43, 98}
  MaxLen = 3
  MaxLen2 = 4
CONSTRAINT Bound
INVARIANT Laws
CHECK_DEADLOCK FALSE
VIEW MCView
