SPECIFICATION Spec
CONSTANTS N = 4 Steps = 3
INVARIANTS Unaltered Hidden Inside
CHECK_DEADLOCK FALSE
