SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Elems = {1, 2}
  MaxLen = 3
  MaxLen2 = 3
