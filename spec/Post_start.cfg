SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxSteps = 3 FromLast = FALSE KeepInterval = FALSE ResetStart = TRUE
INVARIANT TrueLags
PROPERTY Span
CHECK_DEADLOCK FALSE
