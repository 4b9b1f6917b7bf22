SPECIFICATION Spec
CONSTANTS
  NRanks = 2
  Pairs = {1, 2}
  Chans = {1, 2}
  Wins = {2, 12, 4}
  MaxRefs = 2
  Midpoint = FALSE
  FirstKeys = FALSE
INVARIANTS EachOnce Alike Once Complete
CHECK_DEADLOCK FALSE
