SPECIFICATION Spec
CONSTANTS
  D = 3
  SHARED = FALSE
  EMIT = FALSE
  MAXOPS = 0
INVARIANTS ReadSafe FreedOnce NoLeak Owned 
CHECK_DEADLOCK FALSE
