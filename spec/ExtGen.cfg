SPECIFICATION Spec
CONSTANTS
  Hostile = FALSE
  Faults = FALSE
  MaxNodes = 14
INVARIANT Unique
PROPERTY Exact
CHECK_DEADLOCK FALSE
