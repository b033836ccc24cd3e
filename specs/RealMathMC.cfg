SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1}
  Unknown <- Nothing
CONSTRAINT Bound
INVARIANT TypeOK Neighbours UlpIsGap Rounding SquareRoots Remainders
CHECK_DEADLOCK FALSE
VIEW MCView
