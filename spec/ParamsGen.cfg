SPECIFICATION Spec
CONSTANT Depth = 8
INVARIANTS Laws Spare
CHECK_DEADLOCK FALSE
