SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Refresh = {"delta", "start_lag", "npts", "corr_start", "corr_end"}
INVARIANT Consistent
