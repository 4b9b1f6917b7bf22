SPECIFICATION Spec
CONSTANTS
  Pairs = {1}
  NRead = 3
  NSub = 2
  MaxRuns = 3
  Resumed = TRUE
INVARIANTS StackComplete OnlyData Complete
PROPERTIES Monotone NoRecompute
CHECK_DEADLOCK FALSE
