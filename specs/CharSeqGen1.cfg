SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1}
  MaxLen = 2
  MaxLen2 = 1
  Slack = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
