SPECIFICATION Spec
CONSTANTS
  Chunks = {1, 55, 64}
  MaxLen = 57
  MaxLen2 = 3
CONSTRAINT Bound
INVARIANT Right
PROPERTIES Apart
CHECK_DEADLOCK FALSE
VIEW MCView
