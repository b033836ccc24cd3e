SPECIFICATION GenSpec
CONSTANTS
  Depth = 5
  Homes = {1}
  Zones = {0, 1, 2, 3, 4, 5}
  Pats <- Two2
  Days <- Few
  Secs = {25199, 86399}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
