SPECIFICATION GenSpec
CONSTANTS
  Seeds <- SeedSet
  Depth = 3
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
