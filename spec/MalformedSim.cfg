SPECIFICATION Spec
CONSTANT Singles = FALSE
CHECK_DEADLOCK FALSE
