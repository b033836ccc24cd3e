SPECIFICATION Spec
CONSTANTS Elems = {1, 2}
          MaxLen = 3
CONSTRAINT Bound
INVARIANT TypeOK
PROPERTIES RefusedKeeps OneAtATime
CHECK_DEADLOCK FALSE
