SPECIFICATION Spec
CONSTANT M = 3
INVARIANTS InvAccept InvReencode EmitTab
CHECK_DEADLOCK FALSE
