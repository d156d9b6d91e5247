SPECIFICATION Spec
CONSTANTS
  W = 2
  Layouts <- Few
  MaxLen = 3
  MaxBatch = 1
  Ns = {0, 1, 3}
  EAGER = FALSE
  STRAY = FALSE
INVARIANTS Owned Lengths Enough
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE
