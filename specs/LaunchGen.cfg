SPECIFICATION GenSpec
CONSTANTS
  Names = {0, 1}
  Texts <- TextSet
  ArgTexts <- ArgSet
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
