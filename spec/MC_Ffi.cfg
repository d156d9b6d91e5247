SPECIFICATION Spec
CONSTANTS
  W = 2
  Layouts <- Some
  MaxItems = 2
  MaxSpoils = 1
INVARIANTS Exported Sound Typed
CHECK_DEADLOCK FALSE
