SPECIFICATION Spec
CONSTANTS
  Times = {0, 1, 2, 3, 4, 5}
  Ids = {"a", "b"}
  Locs = {"0", "1"}
  MaxLen = 2
  N = 3
INVARIANTS Partition Covered
