SPECIFICATION Spec
CONSTANTS
  GD = 4
  Far = 1000000
  Sizes = {1, 4, 7, 10}
  MaxOps = 4
INVARIANTS CacheOk Contract
CHECK_DEADLOCK FALSE
