SPECIFICATION Spec
CONSTANTS
  Kinds = {1}
  Formats = {100, 37, 115}
  Depth = 2
CONSTRAINT Bound
INVARIANTS WidthLaw Decimal FixedLaw Same
CHECK_DEADLOCK FALSE
VIEW MCView
