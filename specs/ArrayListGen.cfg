SPECIFICATION GenSpec
CONSTANTS Elems = {1, 2}
          MaxLen = 2
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
