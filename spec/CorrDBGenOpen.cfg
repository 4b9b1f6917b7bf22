SPECIFICATION Spec
CONSTANTS
  Tags <- McTags
  Ids <- OneId
  Times <- OneTime
  Ends <- McEnds
  Vals = {1, 2, 3}
  Cos <- McCos
  MaxLog = 12
INVARIANTS Emit MapIsHistory
CHECK_DEADLOCK FALSE
