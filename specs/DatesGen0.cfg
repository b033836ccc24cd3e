SPECIFICATION GenSpec
CONSTANTS
  Depth = 3
  Zones = {0}
  Days <- DaySet
  Fs <- FsSet
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
