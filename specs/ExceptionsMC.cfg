SPECIFICATION Spec
CONSTANTS
  Classes = {0, 4}
  Texts <- SomeTexts
  Slots = {1, 2, 3}
  Depth = 4
CONSTRAINT Bound
INVARIANTS TypeOK Tree
PROPERTIES Others
CHECK_DEADLOCK FALSE
VIEW MCView
