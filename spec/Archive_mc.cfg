SPECIFICATION Spec
CONSTANTS
 N = 5
 L = 2
 Gaps = TRUE
 Depth = 5
INVARIANTS Exact Ordered Served
CHECK_DEADLOCK FALSE
