SPECIFICATION MSpec
CONSTANTS
  Objs = {1, 2}
  MaxOwn = 2
  Caches = {1, 2}
  Turns = 6
  Lost = 0
INVARIANTS Sound Complete Freed
CHECK_DEADLOCK FALSE
