SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 3
  Offsets = {0, 1, 3}
  Mode = "right"
CHECK_DEADLOCK FALSE
INVARIANT Agree
INVARIANT Kept
INVARIANT Rigid
INVARIANT Ends
