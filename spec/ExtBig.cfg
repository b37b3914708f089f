SPECIFICATION Spec
CONSTANT Which = {1, 2}
CHECK_DEADLOCK FALSE
