SPECIFICATION Spec
CONSTANTS
  Tags <- GenTags
  Ids <- GenIds
  Times <- GenTimes
  Ends <- McEnds
  Vals = {1, 2, 3}
  Cos <- McCos
  MaxLog = 14
INVARIANTS Emit MapIsHistory
CHECK_DEADLOCK FALSE
