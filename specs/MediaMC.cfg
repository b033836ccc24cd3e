SPECIFICATION Spec
CONSTANTS
  Types <- TypeSet
  Subs <- SubSet
  Depth = 9
CONSTRAINT Bound
INVARIANT Symmetric RoundTrip
CHECK_DEADLOCK FALSE
VIEW MCView
