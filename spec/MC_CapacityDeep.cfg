SPECIFICATION Spec
CONSTANTS
  W = 2
  Layouts <- Many
  MaxLen = 3
  MaxBatch = 2
  Ns = {0, 1, 2, 3}
  EAGER = FALSE
  STRAY = FALSE
INVARIANTS Owned Lengths Enough
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE
