SPECIFICATION Spec
CONSTANTS
  W = 3
  CHUNK = 2
  MaxScript = 7
  FUSED = TRUE
  UPPER = FALSE
INVARIANTS OnlyBeforeEnd AllBeforeEnd NeverFails LegalRoom
PROPERTY Ends
CHECK_DEADLOCK FALSE
