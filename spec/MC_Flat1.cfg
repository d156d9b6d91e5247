SPECIFICATION Spec
CONSTANTS
  W = 3
  CHUNK = 2
  Layouts <- Flat1
  MaxLen = 5
  MaxBatch = 3
  MaxGrow = 15
  Ops = {"append", "panic", "try", "truncate", "reserve"}
  Slack = TRUE
INVARIANTS Encodes Format Agrees PanicLeavesPrefix
PROPERTY WindowsKept
CHECK_DEADLOCK FALSE
