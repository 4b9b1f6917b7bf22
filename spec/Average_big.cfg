SPECIFICATION Spec
CONSTANT Vals = {0, 1, 2}
INVARIANTS OrderFree Bounds
