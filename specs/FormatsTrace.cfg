SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Homes = {0}
  Zones = {0}
  Pats = {}
  Days = {}
  Secs = {}
