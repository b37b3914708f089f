SPECIFICATION Spec
CONSTANTS
  GD = 2031616
  Far = 1000000
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
