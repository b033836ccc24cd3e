SPECIFICATION GenSpec
CONSTANTS
  Depth = 4
  Homes = {0}
  Zones = {0}
  Pats <- PatSet
  Days <- DaySet
  Secs <- SecSet
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
