SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {0, 1, 2}
  MaxLen = 3
  MaxLen2 = 3
  Slack = 5000
