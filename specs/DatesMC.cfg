SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Zones = {0, 1, 2, 3}
  Days <- DaySet
  Fs <- FsSet
CONSTRAINT Bound
INVARIANT RoundTrip InRange NextDay
CHECK_DEADLOCK FALSE
VIEW MCView
