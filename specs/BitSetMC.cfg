SPECIFICATION Spec
CONSTANTS
  Points = {0, 63, 64}
  MaxLen2 = 1
CONSTRAINT Bound
INVARIANT TypeOK RunsRoundTrip
PROPERTIES RefusedKeeps OneAtATime
CHECK_DEADLOCK FALSE
VIEW MCView
