SPECIFICATION Spec
CONSTANT Singles = TRUE
CHECK_DEADLOCK FALSE
