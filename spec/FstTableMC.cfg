SPECIFICATION Spec
CONSTANTS
  NameSet <- MCNames
  MaxPath = 2
  MaxNodes = 3
  MaxDepth = 3
  Emit = FALSE
VIEW View
INVARIANTS InvRoundTrip EmitTree
CHECK_DEADLOCK FALSE
