SPECIFICATION Spec
CONSTANTS
  Ids <- MCIds
  Delays = {0, 1, 3}
  K0s <- MCK0s
  Ns = {1, 3, 4}
INVARIANTS Inv Involution
CHECK_DEADLOCK FALSE
