SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Bytes = {0, 255, 62}
  Chars = {65, 47, 61, 45, 10}
  MaxLen = 4
  MaxLen2 = 4
