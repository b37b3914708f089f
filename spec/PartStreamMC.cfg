SPECIFICATION Spec
CONSTANTS
  G = 2
  MaxGroups = 3
  MaxOps = 6
  Any = 99
  AnyWrites = FALSE
INVARIANTS Faithful HashesMatch NoHole NeverReadsUnwritten
CHECK_DEADLOCK FALSE
