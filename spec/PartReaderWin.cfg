SPECIFICATION Spec
CONSTANTS
  GD = 2031616
  Far = 1000000
  MaxOps = 12
  WindowsOnly = TRUE
CHECK_DEADLOCK FALSE
