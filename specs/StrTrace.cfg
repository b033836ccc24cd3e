SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = 14
  Alpha = {97, 98}
  MaxLen = 3
  MaxLen2 = 3
