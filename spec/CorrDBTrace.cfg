SPECIFICATION TraceSpec
CONSTANTS
  Tags = {}
  Ids = {}
  Times = {}
  Ends = {}
  Vals = {}
  Cos = {}
  MaxLog = 0
CHECK_DEADLOCK FALSE
