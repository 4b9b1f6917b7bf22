SPECIFICATION Spec
CONSTANTS
  First <- Sections
  End = 7
  Late = 1
  Mode = "empty"
INVARIANTS Exact Sound Clipped Ends
CHECK_DEADLOCK FALSE
