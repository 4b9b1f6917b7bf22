SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxSteps = 3 FromLast = FALSE KeepInterval = FALSE ResetStart = FALSE
INVARIANT TrueLags
PROPERTY Span
CHECK_DEADLOCK FALSE
