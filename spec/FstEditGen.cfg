SPECIFICATION Spec
CONSTANTS
  NameSet <- MCNames
  MaxPath = 2
  MaxNodes = 3
  MaxDepth = 3
  Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
