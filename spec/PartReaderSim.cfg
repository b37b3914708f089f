SPECIFICATION Spec
CONSTANTS
  GD = 2031616
  Far = 1000000
  MaxOps = 30
  WindowsOnly = FALSE
CHECK_DEADLOCK FALSE
