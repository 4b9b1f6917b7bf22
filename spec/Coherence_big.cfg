SPECIFICATION Spec
CONSTANTS
  NRanks = 4
  Pairs = {1, 2}
  Chans = {1, 2, 3}
  Wins = {2, 12}
  MaxRefs = 2
  Midpoint = FALSE
  FirstKeys = FALSE
INVARIANTS EachOnce Alike Once Complete
CHECK_DEADLOCK FALSE
