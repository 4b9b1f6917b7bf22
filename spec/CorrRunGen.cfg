SPECIFICATION GSpec
CONSTANTS
  Pairs = {1, 2, 3}
  NRead = 3
  NSub = 3
  MaxRuns = 3
  Resumed = TRUE
INVARIANTS StackComplete OnlyData Complete Emit
CHECK_DEADLOCK FALSE
