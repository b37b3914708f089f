SPECIFICATION Spec
CONSTANTS
  N = 9
  MaxOps = 3
  Emitting = TRUE
INVARIANTS Total OnlyInside NotLonger
CHECK_DEADLOCK FALSE
