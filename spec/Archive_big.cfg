SPECIFICATION Spec
CONSTANTS
 N = 6
 L = 2
 Gaps = TRUE
 Depth = 7
INVARIANTS Exact Ordered Served
CHECK_DEADLOCK FALSE
