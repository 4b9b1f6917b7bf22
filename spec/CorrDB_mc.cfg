SPECIFICATION Spec
CONSTANTS
  Tags <- McTags
  Ids <- McIds
  Times <- McTimes
  Ends <- McEnds
  Vals = {1, 2}
  Cos <- McCos
  MaxLog = 4
INVARIANTS MapIsHistory Canonical Reachable NeverMixed
PROPERTIES StepProps
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
