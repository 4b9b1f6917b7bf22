SPECIFICATION Spec
CONSTANTS
  MaxP = 4
  Chans = 3
  W = 2
  K = 2
  Mode = "all"
INVARIANTS NoDeadlock Together Same Result NoRace
PROPERTY Terminates
CHECK_DEADLOCK FALSE
