CONSTANTS
  W = 2
  Vals = {"0", "1"}
  MaxRows = 2
  MaxRow = 2
  MaxSlack = 1
SPECIFICATION Spec
INVARIANTS Independent Separate Verdict InRow
PROPERTIES Decides
CHECK_DEADLOCK FALSE
