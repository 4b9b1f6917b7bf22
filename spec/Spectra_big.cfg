SPECIFICATION Spec
CONSTANTS N = 8 L = 2 MaxP = 3 Mode = "right"
INVARIANTS Right Within Apart Data Free
