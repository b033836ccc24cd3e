SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Elems = {1, 2}
  MaxLen = 3
  MaxLen2 = 3
  Cap0 = 10
  Slack = 40
