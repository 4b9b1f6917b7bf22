SPECIFICATION Spec
CONSTANTS
  First <- Sections4
  End = 9
  Late = 1
  Mode = "right"
INVARIANTS Exact Sound Clipped Ends
CHECK_DEADLOCK FALSE
