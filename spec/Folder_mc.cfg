SPECIFICATION Spec
INVARIANTS Single Pure Stable Parts
