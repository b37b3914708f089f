SPECIFICATION Spec
CONSTANT MaxN = 14
CHECK_DEADLOCK FALSE
