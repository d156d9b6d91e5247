SPECIFICATION Spec
CONSTANTS
  D = 6
  SHARED = TRUE
  EMIT = FALSE
  MAXOPS = 0
INVARIANTS ReadSafe FreedOnce NoLeak Owned 
CHECK_DEADLOCK FALSE
