SPECIFICATION Spec
CONSTANTS
  W = 3
  Bytes = {0, 2, 5, 7}
  MaxBytes = 3
  Skips = {0, 1, 2, 4, 9}
INVARIANTS Exact Index Count
PROPERTY Untouched
CHECK_DEADLOCK FALSE
