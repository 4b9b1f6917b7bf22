SPECIFICATION Spec
CONSTANTS N = 6 L = 2 MaxP = 2 Mode = "masked"
INVARIANTS Right Within Apart Data Free
