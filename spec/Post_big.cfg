SPECIFICATION Spec
CONSTANTS MaxN = 12 MaxSteps = 4 FromLast = FALSE KeepInterval = FALSE ResetStart = FALSE
INVARIANT TrueLags
PROPERTY Span
CHECK_DEADLOCK FALSE
