SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2}
  Vals = {0, 1}
  MaxLen = 3
  MaxLen2 = 3
