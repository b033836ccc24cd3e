INIT GenInit2
NEXT GenNext
CONSTANTS Elems = {1, 2}
          MaxLen = 2
          MaxLen2 = 1
          Cap0 = 2
          Slack = 0
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
