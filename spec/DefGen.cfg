SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  MaxNodes = 16
  Fails = FALSE
  BigEvery = 4
  Filled = TRUE
  Hard = FALSE
  NoDol = FALSE
CHECK_DEADLOCK FALSE
