SPECIFICATION Spec
CONSTANTS
  W = 3
  CHUNK = 2
  Layouts <- Nest2
  MaxLen = 3
  MaxBatch = 1
  MaxGrow = 9
  Ops = {"append", "panic", "try", "truncate", "reserve"}
  Slack = FALSE
INVARIANTS Encodes Format Agrees PanicLeavesPrefix
PROPERTY WindowsKept
CHECK_DEADLOCK FALSE
