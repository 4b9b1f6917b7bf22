SPECIFICATION Spec
CONSTANTS
  NRanks = 2
  Pairs = {1, 2}
  Chans = {1, 2}
  Wins = {4, 12}
  MaxRefs = 2
  Midpoint = FALSE
  FirstKeys = TRUE
INVARIANTS EachOnce Alike Once Complete
CHECK_DEADLOCK FALSE
