SPECIFICATION Spec
CONSTANTS
  MaxNodes = 18
  Hostile = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
