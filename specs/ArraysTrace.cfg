SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Vals = {}
  MaxLen = 3
  Kinds = {0}
