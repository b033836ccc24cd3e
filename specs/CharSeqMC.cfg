SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1}
  MaxLen = 3
  MaxLen2 = 1
  Slack = 1
CONSTRAINT Bound
INVARIANT CharsKnown
PROPERTIES RefusedKeeps OneAtATime
CHECK_DEADLOCK FALSE
VIEW MCView
