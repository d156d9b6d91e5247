SPECIFICATION Spec
CONSTANTS
  W = 2
  Layouts <- Some
  MaxItems = 1
  MaxSpoils = 2
INVARIANTS Exported Sound Typed
CHECK_DEADLOCK FALSE
