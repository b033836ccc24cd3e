SPECIFICATION Spec
CONSTANTS
  Vals <- ValSet
  MaxLen = 3
  Kinds = {0, 3, 7}
CONSTRAINT Bound
INVARIANT SortTheorem HashTheorem
CHECK_DEADLOCK FALSE
VIEW MCView
