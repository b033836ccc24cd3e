SPECIFICATION Spec
CONSTANTS Elems = {1}
          MaxLen = 2
          MaxLen2 = 1
          Cap0 = 0
          Slack = 0
CONSTRAINT Bound
INVARIANT TypeOK
PROPERTIES RefusedKeeps OneAtATime
CHECK_DEADLOCK FALSE
