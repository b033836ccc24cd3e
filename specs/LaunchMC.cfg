SPECIFICATION Spec
CONSTANTS
  Names = {0, 1}
  Texts <- TextSet
  ArgTexts <- ArgSet
CONSTRAINT Bound
INVARIANT Failures
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
VIEW MCView
