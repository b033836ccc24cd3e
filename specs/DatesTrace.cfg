SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 4
  Zones = {0}
  Days = {}
  Fs = {}
