SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1}
  Unknown <- Nothing
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
