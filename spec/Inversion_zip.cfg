SPECIFICATION Spec
CONSTANTS
  NCurves = 2
  Pairs = {1, 2}
  Lapses = {1, 2}
  Epochs = {1, 2}
  Calls = 3
  ByPair = FALSE
  Zip = TRUE
  Falsy = FALSE
INVARIANTS Own Once Shift
PROPERTY Kept
CHECK_DEADLOCK FALSE
