SPECIFICATION Spec
CONSTANTS
  W = 2
  Layouts <- Small
  MaxO = 3
INVARIANTS Exact Meaning Itself
CHECK_DEADLOCK FALSE
