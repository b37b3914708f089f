SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  MaxOps = 2
INVARIANTS Unique Right Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
