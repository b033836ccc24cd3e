SPECIFICATION Spec
CONSTANTS
  Kinds = {0, 1, 2}
  Texts <- TextSet
  Chars = {0, 65, 97, 127, 128, 255}
  Names <- NameSet
  Nums <- NumSet
CONSTRAINT Bound
INVARIANTS RoundTrip Digits
CHECK_DEADLOCK FALSE
VIEW MCView
