SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Classes = {0}
  Texts = {}
  Slots = {1}
  Depth = 2
