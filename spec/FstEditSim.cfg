SPECIFICATION SimSpec
CONSTANTS
  NameSet = {}
  MaxPath = 0
  MaxNodes = 60
  MaxDepth = 6
  Emit = FALSE
  Steps = 60
INVARIANTS InvSorted InvSortFixpoint
CHECK_DEADLOCK FALSE
