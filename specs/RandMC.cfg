SPECIFICATION Spec
CONSTANTS
  Seeds <- SeedSet
  Depth = 4
CONSTRAINT Bound
INVARIANT InRange
CHECK_DEADLOCK FALSE
VIEW MCView
