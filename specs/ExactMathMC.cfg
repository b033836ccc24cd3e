SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 4}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
VIEW MCView
