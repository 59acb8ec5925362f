SPECIFICATION Spec
CONSTANTS Depth = 12
INVARIANTS Alike
CHECK_DEADLOCK FALSE
