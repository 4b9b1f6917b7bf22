SPECIFICATION Spec
CONSTANTS
  NCurves = 3
  Pairs = {1, 2}
  Lapses = {1, 2}
  Epochs = {1, 2}
  Calls = 3
  ByPair = FALSE
  Zip = FALSE
  Falsy = FALSE
INVARIANTS Own Once Shift
PROPERTY Kept
CHECK_DEADLOCK FALSE
