SPECIFICATION Spec
CONSTANTS N = 6 L = 2 MaxP = 2 Mode = "order"
INVARIANTS Right Within Apart Data Free
