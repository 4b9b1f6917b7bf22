SPECIFICATION Spec
CONSTANTS
  Ids <- MCIds
  Delays = {0, 3}
  K0s <- MCK0s
  Ns = {3, 4}
INVARIANTS Inv Involution
CHECK_DEADLOCK FALSE
