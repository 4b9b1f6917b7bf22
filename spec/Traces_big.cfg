SPECIFICATION Spec
CONSTANTS N = 5 Steps = 4
INVARIANTS Unaltered Hidden Inside
CHECK_DEADLOCK FALSE
