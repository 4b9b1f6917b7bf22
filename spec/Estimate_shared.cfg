SPECIFICATION Spec
CONSTANTS
  N = 5
  Levels = {0, 1, 3}
  R = 1
  Few = TRUE
  Wrap = FALSE
  Shared = TRUE
INVARIANTS Bounded Steady Copies Deads Corrected Panels
CHECK_DEADLOCK FALSE
