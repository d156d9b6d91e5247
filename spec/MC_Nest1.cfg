SPECIFICATION Spec
CONSTANTS
  W = 3
  CHUNK = 2
  Layouts <- Nest1
  MaxLen = 4
  MaxBatch = 2
  MaxGrow = 12
  Ops = {"append", "panic", "try", "truncate", "reserve"}
  Slack = TRUE
INVARIANTS Encodes Format Agrees PanicLeavesPrefix
PROPERTY WindowsKept
CHECK_DEADLOCK FALSE
