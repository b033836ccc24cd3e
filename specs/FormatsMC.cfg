SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Homes = {0, 1, 3, 9}
  Zones = {0, 1, 2, 3}
  Pats <- Two2
  Days <- DaySet
  Secs <- SecSet
CONSTRAINT Bound
INVARIANTS Weeks Composite
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
VIEW MCView
