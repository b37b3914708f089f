SPECIFICATION Spec
CONSTANTS
  Hostile = FALSE
  Faults = TRUE
  MaxNodes = 8
INVARIANT Unique
PROPERTY Exact
CHECK_DEADLOCK FALSE
