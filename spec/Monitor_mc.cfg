SPECIFICATION Spec
CONSTANTS Isolated = TRUE
INVARIANTS Exact Never Once All Alive GridOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
