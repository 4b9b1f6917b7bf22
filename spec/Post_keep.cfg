SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxSteps = 3 FromLast = FALSE KeepInterval = TRUE ResetStart = FALSE
INVARIANT TrueLags
PROPERTY Span
CHECK_DEADLOCK FALSE
