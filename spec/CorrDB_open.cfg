SPECIFICATION Spec
CONSTANTS
  Tags <- McTags
  Ids <- OneId
  Times <- OneTime
  Ends <- McEnds
  Vals = {1}
  Cos <- McCos
  MaxLog = 6
INVARIANTS MapIsHistory Canonical Reachable NeverMixed
PROPERTIES StepProps
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
