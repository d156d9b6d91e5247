SPECIFICATION Spec
CONSTANTS
  W = 8
  CHUNK = 1024
VIEW View
INVARIANT Format
CHECK_DEADLOCK FALSE
