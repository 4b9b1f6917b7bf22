SPECIFICATION Spec
CONSTANT Vals = {0, 1}
INVARIANTS OrderFree Bounds
