SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {0}
  Texts = {}
  Chars = {}
  Names = {}
  Nums = {}
