SPECIFICATION GenSpec
CONSTANTS
  Types <- TypeSet
  Subs <- SubSet
  Depth = 3
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
