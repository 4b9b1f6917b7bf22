SPECIFICATION Spec
CONSTANTS
  MaxP = 3
  Chans = 2
  W = 2
  K = 1
  Mode = "all"
INVARIANTS NoDeadlock Together Same Result NoRace
PROPERTY Terminates
CHECK_DEADLOCK FALSE
