SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1}
CONSTRAINT Bound
INVARIANT TypeOK Order TextIsNumeral IntLaws
CHECK_DEADLOCK FALSE
VIEW MCView
