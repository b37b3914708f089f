SPECIFICATION Spec
CONSTANTS
  Hostile = TRUE
  Faults = FALSE
  MaxNodes = 8
INVARIANT Unique
PROPERTY Exact
CHECK_DEADLOCK FALSE
