SPECIFICATION Spec
CONSTANT Each = 1500
CHECK_DEADLOCK FALSE
