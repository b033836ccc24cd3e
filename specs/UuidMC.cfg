SPECIFICATION Spec
CONSTANTS
  Halves <- HalfSet
  Depth = 5
CONSTRAINT Bound
INVARIANT RoundTrip Order Distinct
CHECK_DEADLOCK FALSE
VIEW MCView
