SPECIFICATION Spec
CONSTANTS
  NameSet <- MCNames
  MaxPath = 2
  MaxNodes = 3
  MaxDepth = 3
  Emit = FALSE
INVARIANTS InvSorted InvSortFixpoint InvAdd InvAddReturn InvErr InvAddFrame InvRm InvFind
CHECK_DEADLOCK FALSE
