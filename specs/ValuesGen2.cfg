SPECIFICATION GenSpec
CONSTANTS
  Kinds = {2}
  Texts <- TextSet
  Chars = {0, 65, 97, 127, 128, 255}
  Names <- NameSet
  Nums <- NumSet
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
VIEW GenView
CHECK_DEADLOCK FALSE
