SPECIFICATION Spec
CONSTANTS N = 6 L = 2 MaxP = 2 Mode = "root"
INVARIANTS Right Within Apart Data Free
