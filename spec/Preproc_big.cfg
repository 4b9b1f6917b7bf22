SPECIFICATION Spec
CONSTANTS N = 3 Rows = 4 MaxSteps = 3 GiveUp = FALSE Torn = FALSE All = FALSE
CONSTANT Vals = {0, 1, 4}
INVARIANT Independent
PROPERTIES Zero Signs Bounded
CHECK_DEADLOCK FALSE
