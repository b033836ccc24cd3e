SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Chunks = {1, 55}
  MaxLen = 4
  MaxLen2 = 4
