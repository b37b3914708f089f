SPECIFICATION Spec
CONSTANTS
  MaxNodes = 18
  Hostile = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
