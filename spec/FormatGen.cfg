SPECIFICATION Spec
CONSTANT Each = 40
CHECK_DEADLOCK FALSE
