SPECIFICATION Spec
CONSTANTS
  Part = 20
  Kinds = {0, 1, 2, 3}
CONSTRAINT Bound
INVARIANT TypeOK RoundTrip Division BitLaws
CHECK_DEADLOCK FALSE
VIEW MCView
